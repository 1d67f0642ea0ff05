# fifth round: refactorings in other styles, and bugs written from the statements alone
# ---- refactorings
R('5 fields by macro', ('field.c', '''    size_t fieldSize = sizeof(IFF_UByte);

    if(fieldDoesNotFitInChunk(fieldSize, chunk->chunkSize, *bytesProcessed))
        return IFF_FIELD_LAST;
    else if(IFF_readUByte(file, value, chunk->chunkId, attributeName))
    {
        increaseBytesProcessed(bytesProcessed, fieldSize);
        return IFF_FIELD_MORE;
    }
    else
        return IFF_FIELD_FAILURE;''', '''#define TRANSFER(type, op) \\
    if(fieldDoesNotFitInChunk(sizeof(type), chunk->chunkSize, *bytesProcessed)) \\
        return IFF_FIELD_LAST; \\
    if(!(op)) \\
        return IFF_FIELD_FAILURE; \\
    *bytesProcessed += sizeof(type); \\
    return IFF_FIELD_MORE

    TRANSFER(IFF_UByte, IFF_readUByte(file, value, chunk->chunkId, attributeName));'''))
R('5 field finish helper', ('field.c', '''IFF_FieldStatus IFF_readUByteField(''', '''static IFF_FieldStatus finish(const IFF_Bool ok, const size_t size, IFF_Long *bytesProcessed)
{
    if(!ok)
        return IFF_FIELD_FAILURE;

    *bytesProcessed += (IFF_Long)size;
    return IFF_FIELD_MORE;
}

IFF_FieldStatus IFF_readUByteField('''), ('field.c', '''    else if(IFF_readUWord(file, value, chunk->chunkId, attributeName))
    {
        increaseBytesProcessed(bytesProcessed, fieldSize);
        return IFF_FIELD_MORE;
    }
    else
        return IFF_FIELD_FAILURE;''', '''
    return finish(IFF_readUWord(file, value, chunk->chunkId, attributeName), fieldSize, bytesProcessed);'''))
R('5 field generic with callback', ('field.c', '''IFF_FieldStatus IFF_readUByteField(FILE *file, IFF_UByte *value, const IFF_Chunk *chunk, const char *attributeName, IFF_Long *bytesProcessed)
{
    size_t fieldSize = sizeof(IFF_UByte);

    if(fieldDoesNotFitInChunk(fieldSize, chunk->chunkSize, *bytesProcessed))
        return IFF_FIELD_LAST;
    else if(IFF_readUByte(file, value, chunk->chunkId, attributeName))
    {
        increaseBytesProcessed(bytesProcessed, fieldSize);
        return IFF_FIELD_MORE;
    }
    else
        return IFF_FIELD_FAILURE;
}
''', '''typedef IFF_Bool (*Reader) (FILE *file, void *value, const IFF_ID chunkId, const char *attributeName);

static IFF_FieldStatus readField(Reader reader, size_t fieldSize, FILE *file, void *value, const IFF_Chunk *chunk, const char *attributeName, IFF_Long *bytesProcessed)
{
    if(fieldDoesNotFitInChunk(fieldSize, chunk->chunkSize, *bytesProcessed))
        return IFF_FIELD_LAST;

    if(!reader(file, value, chunk->chunkId, attributeName))
        return IFF_FIELD_FAILURE;

    increaseBytesProcessed(bytesProcessed, fieldSize);
    return IFF_FIELD_MORE;
}

static IFF_Bool readByte(FILE *file, void *value, const IFF_ID chunkId, const char *attributeName)
{
    return IFF_readUByte(file, (IFF_UByte*)value, chunkId, attributeName);
}

IFF_FieldStatus IFF_readUByteField(FILE *file, IFF_UByte *value, const IFF_Chunk *chunk, const char *attributeName, IFF_Long *bytesProcessed)
{
    return readField(&readByte, sizeof(IFF_UByte), file, value, chunk, attributeName, bytesProcessed);
}
'''))
R('5 fit by comparison of widths', ('field.c', 'return chunkSize < 0 || (size_t)chunkSize < fieldSize || bytesProcessed > chunkSize - (IFF_Long)fieldSize;', 'return (long long)bytesProcessed + (long long)fieldSize > (long long)chunkSize;'))
R('5 long through unsigned long', ('io.c', '''    IFF_Long readValue;

    if(fread(&readValue, sizeof(IFF_Long), 1, file) == 1)
    {
#if IFF_BIG_ENDIAN == 1
        *value = readValue;
#else
        /* Byte swap it */
        *value = (readValue & 0xff) << 24 | (readValue & 0xff00) << 8 | (readValue & 0xff0000) >> 8 | (readValue & 0xff000000) >> 24;
#endif
        return TRUE;
    }
    else
    {
        IFF_readError(chunkId, attributeName);
        return FALSE;
    }''', '''    IFF_ULong unsignedValue;

    if(!IFF_readULong(file, &unsignedValue, chunkId, attributeName))
        return FALSE;

    *value = (IFF_Long)unsignedValue;
    return TRUE;'''))
R('5 write word through unsigned word', ('io.c', '''#if IFF_BIG_ENDIAN == 1
    IFF_Word writeWord = value;
#else
    IFF_Word writeWord = (value & 0xff) << 8 | (value & 0xff00) >> 8;
#endif

    if(fwrite(&writeWord, sizeof(IFF_Word), 1, file) == 1)
        return TRUE;
    else
    {
        IFF_writeError(chunkId, attributeName);
        return FALSE;
    }''', '''    return IFF_writeUWord(file, (IFF_UWord)value, chunkId, attributeName);'''))
R('5 ulong from a byte loop', ('io.c', '''    IFF_ULong readValue;

    if(fread(&readValue, sizeof(IFF_ULong), 1, file) == 1)
    {
#if IFF_BIG_ENDIAN == 1
        *value = readValue;
#else
        /* Byte swap it */
        *value = (readValue & 0xff) << 24 | (readValue & 0xff00) << 8 | (readValue & 0xff0000) >> 8 | (readValue & 0xff000000) >> 24;
#endif
        return TRUE;
    }
    else
    {
        IFF_readError(chunkId, attributeName);
        return FALSE;
    }''', '''    IFF_UByte raw[4];
    IFF_ULong result = 0;
    int i;

    if(fread(raw, 1, sizeof(raw), file) != sizeof(raw))
    {
        IFF_readError(chunkId, attributeName);
        return FALSE;
    }

    for(i = 0; i < 4; i++)
        result = (result << 8) | raw[i];

    *value = result;
    return TRUE;'''))
R('5 ulong by getc', ('io.c', '''    IFF_ULong readValue;

    if(fread(&readValue, sizeof(IFF_ULong), 1, file) == 1)
    {
#if IFF_BIG_ENDIAN == 1
        *value = readValue;
#else
        /* Byte swap it */
        *value = (readValue & 0xff) << 24 | (readValue & 0xff00) << 8 | (readValue & 0xff0000) >> 8 | (readValue & 0xff000000) >> 24;
#endif
        return TRUE;
    }
    else
    {
        IFF_readError(chunkId, attributeName);
        return FALSE;
    }''', '''    IFF_ULong result = 0;
    int i;

    for(i = 0; i < 4; i++)
    {
        int c = getc(file);

        if(c == EOF)
        {
            IFF_readError(chunkId, attributeName);
            return FALSE;
        }

        result = result * 256 + (IFF_ULong)c;
    }

    *value = result;
    return TRUE;'''))
R('5 write ulong by putc', ('io.c', '''    if(fwrite(&writeValue, sizeof(IFF_ULong), 1, file) == 1)
        return TRUE;
    else
    {
        IFF_writeError(chunkId, attributeName);
        return FALSE;
    }''', '''    int shift;
    (void)writeValue;

    for(shift = 24; shift >= 0; shift -= 8)
    {
        if(putc((value >> shift) & 0xff, file) == EOF)
        {
            IFF_writeError(chunkId, attributeName);
            return FALSE;
        }
    }

    return TRUE;'''))
R('5 word swap function', ('io.c', 'IFF_Bool IFF_readUByte(', '''static void swapBytes(void *p, size_t n)
{
    IFF_UByte *b = (IFF_UByte*)p;
    size_t i;

    for(i = 0; i < n / 2; i++)
    {
        IFF_UByte t = b[i];
        b[i] = b[n - 1 - i];
        b[n - 1 - i] = t;
    }
}

IFF_Bool IFF_readUByte('''), ('io.c', '''#if IFF_BIG_ENDIAN == 1
        *value = readUWord;
#else
        /* Byte swap it */
        *value = (readUWord & 0xff) << 8 | (readUWord & 0xff00) >> 8;
#endif
''', '''#if IFF_BIG_ENDIAN != 1
        swapBytes(&readUWord, sizeof(readUWord));
#endif
        *value = readUWord;
'''))
R('5 padding inverted', ('io.c', '''    if(chunkSize % 2 != 0) /* Check whether the chunk size is an odd number */
    {
        int byte = fgetc(file); /* Read padding byte */

        if(byte == EOF) /* We shouldn't have reached the EOF yet */
        {
            IFF_error("Unexpected end of file, while reading padding byte of '");
            IFF_errorId(chunkId);
            IFF_error("'\\n");
            return FALSE;
        }
        else if(byte != 0) /* Normally, a padding byte is 0, warn if this is not the case */
            IFF_error("WARNING: Padding byte is non-zero!\\n");
    }

    return TRUE;''', '''    int byte;

    if((chunkSize & 1) == 0)
        return TRUE;

    switch(byte = fgetc(file))
    {
        case EOF:
            IFF_error("Unexpected end of file, while reading padding byte of '");
            IFF_errorId(chunkId);
            IFF_error("'\\n");
            return FALSE;
        case 0:
            return TRUE;
        default:
            IFF_error("WARNING: Padding byte is non-zero!\\n");
            return TRUE;
    }'''))
R('5 write pad through byte writer', ('io.c', '''        if(fputc('\\0', file) == EOF)''', '''        const IFF_UByte zero = 0;

        if(fwrite(&zero, sizeof(zero), 1, file) != 1)'''))
R('5 filler by helper', ('io.c', '''IFF_Bool IFF_writeZeroFillerBytes(FILE''', '''static IFF_Bool writeZeros(FILE *file, size_t count)
{
    while(count > 0)
    {
        if(fputc(0, file) == EOF)
            return FALSE;

        count--;
    }

    return TRUE;
}

IFF_Bool IFF_writeZeroFillerBytes(FILE'''), ('io.c', '''        IFF_UByte *emptyData = (IFF_UByte*)calloc(bytesToSkip, sizeof(IFF_UByte));
        IFF_Bool status = emptyData != NULL && fwrite(emptyData, sizeof(IFF_UByte), bytesToSkip, file) == bytesToSkip;
''', '''        IFF_Bool status = writeZeros(file, bytesToSkip);
'''), ('io.c', '''        free(emptyData);
        return status;''', '''        return status;'''))
R('5 skip with feof', ('io.c', '''            if(fgetc(file) == EOF)
            {''', '''            (void)fgetc(file);

            if(feof(file) || ferror(file))
            {'''))
R('5 chunk write sequential', ('chunk.c', '''    return IFF_writeId(file, chunk->chunkId, chunk->chunkId, "chunkId")
        && IFF_writeLong(file, chunk->chunkSize, chunk->chunkId, "chunkSize")
        && writeChunkBody(file, chunk, formType, chunkRegistry);''', '''    IFF_Bool result = FALSE;

    if(!IFF_writeId(file, chunk->chunkId, chunk->chunkId, "chunkId"))
        goto done;

    if(!IFF_writeLong(file, chunk->chunkSize, chunk->chunkId, "chunkSize"))
        goto done;

    result = writeChunkBody(file, chunk, formType, chunkRegistry);

done:
    return result;'''))
R('5 chunk header struct', ('chunk.c', '''    IFF_ID chunkId;
    IFF_Long chunkSize;

    if(!IFF_readId(file, &chunkId, ID_EMPTY, "")
        || !IFF_readLong(file, &chunkSize, chunkId, "chunkSize"))
        return NULL;
''', '''    struct { IFF_ID id; IFF_Long size; } header;
    IFF_ID chunkId;
    IFF_Long chunkSize;

    if(!IFF_readId(file, &header.id, ID_EMPTY, "")
        || !IFF_readLong(file, &header.size, header.id, "chunkSize"))
        return NULL;

    chunkId = header.id;
    chunkSize = header.size;
'''))
R('5 chunk header helper', ('chunk.c', '''IFF_Chunk *IFF_readChunk(FILE''', '''static IFF_Bool readHeader(FILE *file, IFF_ID *chunkId, IFF_Long *chunkSize)
{
    if(!IFF_readId(file, chunkId, ID_EMPTY, ""))
        return FALSE;

    return IFF_readLong(file, chunkSize, *chunkId, "chunkSize");
}

IFF_Chunk *IFF_readChunk(FILE'''), ('chunk.c', '''    if(!IFF_readId(file, &chunkId, ID_EMPTY, "")
        || !IFF_readLong(file, &chunkSize, chunkId, "chunkSize"))
        return NULL;''', '''    if(!readHeader(file, &chunkId, &chunkSize))
        return NULL;'''))
R('5 body inline', ('chunk.c', '''        IFF_Long bytesProcessed = 0;

        /* Read remaining bytes (procedure depends on chunk id type) */
        if(!chunkType->readExtensionChunkFields(file, chunk, chunkRegistry, &bytesProcessed)
            || !IFF_skipUnknownBytes(file, chunk->chunkId, chunkSize, bytesProcessed)
            || !IFF_readPaddingByte(file, chunkSize, chunk->chunkId))
        {
            IFF_freeChunk(chunk, formType, chunkRegistry);
            return NULL;
        }''', '''        IFF_Long bytesProcessed = 0;
        IFF_Bool status = chunkType->readExtensionChunkFields(file, chunk, chunkRegistry, &bytesProcessed);

        status = status && IFF_skipUnknownBytes(file, chunkId, chunkSize, bytesProcessed);
        status = status && IFF_readPaddingByte(file, chunkSize, chunkId);

        if(!status)
        {
            chunkType->freeExtensionChunk(chunk, chunkRegistry);
            free(chunk);
            chunk = NULL;
        }'''))
R('5 check chunk in one expression', ('chunk.c', '''    if(!IFF_checkId(chunk->chunkId))
        return FALSE;
    else
    {
        IFF_ChunkType *chunkType = IFF_findChunkType(chunkRegistry, formType, chunk->chunkId);
        return chunkType->checkExtensionChunk(chunk, chunkRegistry);
    }''', '''    return IFF_checkId(chunk->chunkId)
        && IFF_findChunkType(chunkRegistry, formType, chunk->chunkId)->checkExtensionChunk(chunk, chunkRegistry);'''))
R('5 compare chunk guards', ('chunk.c', '''    if(chunk1->chunkId == chunk2->chunkId && chunk1->chunkSize == chunk2->chunkSize)
    {
        IFF_ChunkType *chunkType = IFF_findChunkType(chunkRegistry, formType, chunk1->chunkId);
        return chunkType->compareExtensionChunk(chunk1, chunk2, chunkRegistry);
    }
    else
        return FALSE;''', '''    IFF_ChunkType *chunkType;

    if(chunk1 == chunk2)
        return TRUE;

    if(chunk1->chunkSize != chunk2->chunkSize)
        return FALSE;

    if(chunk1->chunkId != chunk2->chunkId)
        return FALSE;

    chunkType = IFF_findChunkType(chunkRegistry, formType, chunk1->chunkId);
    return chunkType->compareExtensionChunk(chunk1, chunk2, chunkRegistry);'''))
R('5 group read by remaining', ('group.c', '''    while(*bytesProcessed < group->chunkSize)
    {
        /* Read sub chunk */''', '''    for(;;)
    {
        if(*bytesProcessed >= group->chunkSize)
            break;

        /* Read sub chunk */'''))
R('5 list add helper', ('list.c', '''static IFF_Bool readListSubChunks(FILE''', '''static IFF_Bool attachToList(IFF_List *list, IFF_Chunk *chunk)
{
    if(chunk->chunkId != IFF_ID_PROP)
        return IFF_attachToGroup((IFF_Group*)list, chunk);

    return addPropToList(list, (IFF_Prop*)chunk);
}

static IFF_Bool readListSubChunks(FILE'''), ('list.c', '''        if(chunk->chunkId == IFF_ID_PROP)
            status = addPropToList(list, (IFF_Prop*)chunk);
        else
            status = IFF_attachToGroup((IFF_Group*)list, chunk);

        if(!status)''', '''        status = attachToList(list, chunk);

        if(!status)'''))
R('5 list read with switch', ('list.c', '''        if(chunk->chunkId == IFF_ID_PROP)
            status = addPropToList(list, (IFF_Prop*)chunk);
        else
            status = IFF_attachToGroup((IFF_Group*)list, chunk);
''', '''        switch(chunk->chunkId)
        {
            case IFF_ID_PROP:
                status = addPropToList(list, (IFF_Prop*)chunk);
                break;
            default:
                status = IFF_attachToGroup((IFF_Group*)list, chunk);
                break;
        }
'''))
R('5 list write chained', ('list.c', '''    if(!writeListPropChunks(file, list, chunkRegistry, bytesProcessed))
        return FALSE;

    if(!IFF_writeGroupSubChunks(file, (const IFF_Group*)chunk, chunkRegistry, bytesProcessed))
        return FALSE;

    return TRUE;''', '''    return writeListPropChunks(file, list, chunkRegistry, bytesProcessed)
        && IFF_writeGroupSubChunks(file, (const IFF_Group*)chunk, chunkRegistry, bytesProcessed);'''))
R('5 group write id status', ('group.c', '''    if((status = IFF_writeIdField(file, group->groupType, chunk, groupTypeName, bytesProcessed)) != IFF_FIELD_MORE)
        return IFF_deriveSuccess(status);

    if(!IFF_writeGroupSubChunks(file, group, chunkRegistry, bytesProcessed))
        return FALSE;

    return TRUE;''', '''    status = IFF_writeIdField(file, group->groupType, chunk, groupTypeName, bytesProcessed);

    if(status == IFF_FIELD_FAILURE)
        return FALSE;

    if(status == IFF_FIELD_LAST)
        return TRUE;

    return IFF_writeGroupSubChunks(file, group, chunkRegistry, bytesProcessed);'''))
R('5 check group size difference', ('group.c', '''    if(chunkSize == group->chunkSize)
        return TRUE;
    else
    {''', '''    const IFF_Long declared = group->chunkSize;

    if(!(chunkSize < declared || chunkSize > declared))
        return TRUE;
    else
    {'''))
R('5 sub chunks check accumulates from the type', ('group.c', '''    if((chunkSize = IFF_checkGroupSubChunks(group, subChunkCheck, chunkRegistry)) == -1)
        return FALSE;

    chunkSize += IFF_ID_SIZE;

    if(!IFF_checkGroupChunkSize(group, chunkSize))
        return FALSE;

    return TRUE;''', '''    chunkSize = IFF_checkGroupSubChunks(group, subChunkCheck, chunkRegistry);

    return chunkSize != -1 && IFF_checkGroupChunkSize(group, chunkSize + IFF_ID_SIZE);'''))
R('5 increment in terms of rounding', ('group.c', '''    IFF_Long returnValue = chunkSize + IFF_ID_SIZE + sizeof(IFF_Long) + chunk->chunkSize;

    /* If the size of the nested chunk size is odd, we have to count the padding byte as well */
    if(chunk->chunkSize % 2 != 0)
        returnValue++;

    return returnValue;''', '''    const IFF_Long header = IFF_ID_SIZE + sizeof(IFF_Long);
    const IFF_Long padding = chunk->chunkSize & 1;

    return chunkSize + header + chunk->chunkSize + padding;'''))
R('5 update loop through helper', ('group.c', '''void IFF_updateGroupChunkSizes(IFF_Group *group)
{
    unsigned int i;

    group->chunkSize = IFF_ID_SIZE;

    for(i = 0; i < group->chunkLength; i++)
        group->chunkSize = IFF_incrementChunkSize(group->chunkSize, group->chunk[i]);
}''', '''static IFF_Long sizeOfMembers(IFF_Chunk *const *members, unsigned int length, IFF_Long size)
{
    while(length-- > 0)
        size = IFF_incrementChunkSize(size, *members++);

    return size;
}

void IFF_updateGroupChunkSizes(IFF_Group *group)
{
    group->chunkSize = sizeOfMembers(group->chunk, group->chunkLength, IFF_ID_SIZE);
}'''))
R('5 update chunk sizes by ifs', ('group.c', '''    switch(chunk->chunkId)
    {
        case IFF_ID_FORM:
            IFF_updateFormChunkSizes((IFF_Form*)chunk);
            break;
        case IFF_ID_PROP:
            IFF_updatePropChunkSizes((IFF_Prop*)chunk);
            break;
        case IFF_ID_CAT:
            IFF_updateCATChunkSizes((IFF_CAT*)chunk);
            break;
        case IFF_ID_LIST:
            IFF_updateListChunkSizes((IFF_List*)chunk);
            break;
    }
''', '''    if(chunk->chunkId == IFF_ID_LIST)
        IFF_updateListChunkSizes((IFF_List*)chunk);
    else if(chunk->chunkId == IFF_ID_FORM || chunk->chunkId == IFF_ID_PROP || chunk->chunkId == IFF_ID_CAT)
        IFF_updateGroupChunkSizes((IFF_Group*)chunk);
'''))
R('5 list sizes sum', ('list.c', '''    IFF_updateCATChunkSizes((IFF_CAT*)list);

    for(i = 0; i < list->propLength; i++)
        list->chunkSize = IFF_incrementChunkSize(list->chunkSize, (IFF_Chunk*)list->prop[i]);''', '''    IFF_Long size = IFF_ID_SIZE;

    for(i = 0; i < list->propLength; i++)
        size = IFF_incrementChunkSize(size, (IFF_Chunk*)list->prop[i]);

    for(i = 0; i < list->chunkLength; i++)
        size = IFF_incrementChunkSize(size, list->chunk[i]);

    list->chunkSize = size;'''))
R('5 attach stores parent first', ('group.c', '''    group->chunk = newChunk;
    group->chunk[group->chunkLength] = chunk;
    group->chunkLength++;
    chunk->parent = group;
''', '''    chunk->parent = group;
    newChunk[group->chunkLength++] = chunk;
    group->chunk = newChunk;
'''))
R('5 attach generic helper', ('group.c', '''IFF_Bool IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk)
{
    IFF_Chunk **newChunk = (IFF_Chunk**)realloc(group->chunk, (group->chunkLength + 1) * sizeof(IFF_Chunk*));

    if(newChunk == NULL)
        return FALSE;

    group->chunk = newChunk;
''', '''static IFF_Bool growArray(IFF_Chunk ***array, unsigned int length)
{
    IFF_Chunk **grown = (IFF_Chunk**)realloc(*array, sizeof(**array) * length);

    if(grown != NULL)
        *array = grown;

    return grown != NULL;
}

IFF_Bool IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk)
{
    if(!growArray(&group->chunk, group->chunkLength + 1))
        return FALSE;

'''))
R('5 create group by hand', ('group.c', '''    IFF_Group *group = (IFF_Group*)IFF_createChunk(chunkId, chunkSize, sizeof(IFF_Group));

    if(group != NULL)
        IFF_initGroup(group, groupType);

    return group;''', '''    IFF_Group *group = (IFF_Group*)malloc(sizeof(*group));

    if(group == NULL)
        return NULL;

    group->parent = NULL;
    group->chunkId = chunkId;
    group->chunkSize = chunkSize;
    IFF_initGroup(group, groupType);
    return group;'''))
R('5 create list by compound', ('list.c', '''        IFF_initGroup((IFF_Group*)list, contentsType);

        list->prop = NULL;
        list->propLength = 0;''', '''        list->contentsType = contentsType;
        list->chunkLength = list->propLength = 0;
        list->chunk = NULL;
        list->prop = NULL;'''))
R('5 create chunk zeroed', ('chunk.c', '''    IFF_Chunk *chunk = (IFF_Chunk*)malloc(structSize);

    if(chunk != NULL)
    {
        chunk->parent = NULL;
''', '''    IFF_Chunk *chunk = (IFF_Chunk*)calloc(1, structSize);

    if(chunk != NULL)
    {
'''))
R('5 free group counts down', ('group.c', '''    unsigned int i;

    for(i = 0; i < group->chunkLength; i++)
        IFF_freeChunk(group->chunk[i], group->groupType, chunkRegistry);

    free(group->chunk);''', '''    while(group->chunkLength > 0)
        IFF_freeChunk(group->chunk[--group->chunkLength], group->groupType, chunkRegistry);

    free(group->chunk);
    group->chunk = NULL;'''))
R('5 free list inline', ('list.c', '''    IFF_freeCAT(chunk, chunkRegistry);
    freeListPropChunks(list, chunkRegistry);
    free(list->prop);''', '''    freeListPropChunks(list, chunkRegistry);

    if(list->prop != NULL)
        free(list->prop);

    IFF_freeGroup((IFF_Group*)list, chunkRegistry);'''))
R('5 id to string by memcpy order', ('id.c', '''    id2[0] = id >> 24;
    id2[1] = (id & 0xff0000) >> 16;
    id2[2] = (id & 0xff00) >> 8;
    id2[3] = id & 0xff;''', '''    IFF_ID rest = id;
    int i;

    for(i = 3; i >= 0; i--)
    {
        id2[i] = rest % 256;
        rest /= 256;
    }'''))
R('5 check id with pointer', ('id.c', '''    for(i = 0; i < IFF_ID_SIZE - 1; i++)
    {
        if(id2[i] == ' ' && id2[i + 1] != ' ')
        {''', '''    for(i = 1; i < IFF_ID_SIZE; i++)
    {
        const int previous = id2[i - 1];

        if(previous == ' ' && id2[i] > ' ')
        {'''))
R('5 check id helper', ('id.c', 'IFF_Bool IFF_checkId(', '''static IFF_Bool legal(int c)
{
    return c >= ' ' && c <= '~';
}

IFF_Bool IFF_checkId('''), ('id.c', 'if(id2[i] < 0x20 || id2[i] > 0x7e)', 'if(!legal(id2[i]))'))
R('5 form type helper', ('form.c', 'IFF_Bool IFF_checkFormType(', '''static IFF_Bool isUpperOrDigit(const IFF_UByte c)
{
    if(c >= 'A' && c <= 'Z')
        return TRUE;

    return c >= '0' && c <= '9';
}

IFF_Bool IFF_checkFormType('''), ('form.c', "if(!(formType2[i] >= 'A' && formType2[i] <= 'Z') && !(formType2[i] >= '0' && formType2[i] <= '9') && formType2[i] != ' ')", "if(formType2[i] != ' ' && !isUpperOrDigit(formType2[i]))"))
R('5 form type by strchr', ('form.c', '#include "error.h"', '#include "error.h"\n#include <string.h>'), ('form.c', "if(!(formType2[i] >= 'A' && formType2[i] <= 'Z') && !(formType2[i] >= '0' && formType2[i] <= '9') && formType2[i] != ' ')", 'if(formType2[i] == 0 || strchr("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 ", formType2[i]) == NULL)'))
R('5 reserved by prefix and digit', ('form.c', '''    if(formType == IFF_ID_LIST ||''', '''    if(((formType >> 8 == ID_LIS1 >> 8 || formType >> 8 == ID_FOR1 >> 8 || formType >> 8 == ID_CAT1 >> 8) && (formType & 0xff) >= '1' && (formType & 0xff) <= '9') ||
       formType == IFF_ID_LIST ||'''))
R('5 registry lookups as loops', ('chunkregistry.c', '''        result = (IFF_ChunkType*)bsearch(&key, chunkTypesNode->chunkTypes, chunkTypesNode->chunkTypesLength, sizeof(IFF_ChunkType), &compareChunkTypes);

        if(result == NULL)
            return getChunkType(chunkId, chunkTypesNode->parent);
        else
            return result;''', '''        do
        {
            result = (IFF_ChunkType*)bsearch(&key, chunkTypesNode->chunkTypes, chunkTypesNode->chunkTypesLength, sizeof(IFF_ChunkType), &compareChunkTypes);
            chunkTypesNode = chunkTypesNode->parent;
        }
        while(result == NULL && chunkTypesNode != NULL);

        return result;'''))
R('5 registry fallbacks by ternary', ('chunkregistry.c', '''        if(result == NULL)
            return chunkRegistry->defaultChunkType;
        else
            return result;''', '''        return result ? result : chunkRegistry->defaultChunkType;'''))
R('5 registry hand written bisection', ('chunkregistry.c', '''        result = (IFF_ChunkType*)bsearch(&key, chunkTypesNode->chunkTypes, chunkTypesNode->chunkTypesLength, sizeof(IFF_ChunkType), &compareChunkTypes);
''', '''        unsigned int low = 0, high = chunkTypesNode->chunkTypesLength;

        result = NULL;

        while(low < high)
        {
            unsigned int mid = low + (high - low) / 2;
            int order = compareChunkTypes(&key, &chunkTypesNode->chunkTypes[mid]);

            if(order == 0)
            {
                result = &chunkTypesNode->chunkTypes[mid];
                break;
            }
            else if(order < 0)
                high = mid;
            else
                low = mid + 1;
        }
'''))
R('5 search without array', ('group.c', '''    for(i = 0; i < group->chunkLength; i++)
    {
        unsigned int resultLength;
        IFF_Form **result = IFF_searchFormsFromArray(group->chunk[i], formTypes, formTypesLength, &resultLength);

        forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);
        free(result);
    }
''', '''    for(i = 0; i < group->chunkLength; i++)
    {
        unsigned int resultLength = 0;
        IFF_Form **result = IFF_searchFormsFromArray(group->chunk[i], formTypes, formTypesLength, &resultLength);

        if(result == NULL)
            continue;

        forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);
        free(result);
    }
'''))
R('5 search one type directly', ('group.c', '''    IFF_ID formTypes[1];
    formTypes[0] = formType;
    return IFF_searchFormsFromArray(chunk, formTypes, 1, formsLength);''', '''    return IFF_searchFormsFromArray(chunk, &formType, 1, formsLength);'''))
R('5 property by conditions', ('form.c', '''        if(prop == NULL)
            return searchProperty((IFF_Chunk*)list, formType, chunkId); /* If we can't find a shared property chunk with the given form type, try searching for a list higher in the hierarchy */
        else
        {
            /* Try requesting the chunk from the shared property chunk */
            IFF_Chunk *chunk = IFF_getChunkFromProp(prop, chunkId);

            if(chunk == NULL)
                return searchProperty((IFF_Chunk*)list, formType, chunkId); /* If the requested chunk is not in the PROP chunk, try searching for a list higher in the hierarchy */
            else
                return chunk; /* We have found the requested shared property chunk */
        }''', '''        IFF_Chunk *found = prop == NULL ? NULL : IFF_getChunkFromProp(prop, chunkId);

        return found != NULL ? found : searchProperty((IFF_Chunk*)list, formType, chunkId);'''))
R('5 property whole chain in one loop', ('form.c', '''    /* If the chunk is not in the form, try to find it in a higher located PROP */
    if(chunk == NULL)
        return searchProperty((IFF_Chunk*)form, form->formType, chunkId);
    else
        return chunk;''', '''    const IFF_Group *group;

    for(group = form->parent; chunk == NULL && group != NULL; group = group->parent)
    {
        if(group->chunkId == IFF_ID_LIST)
        {
            const IFF_Prop *prop = IFF_getPropFromList((const IFF_List*)group, form->formType);

            if(prop != NULL)
                chunk = IFF_getChunkFromProp(prop, chunkId);
        }
    }

    (void)searchProperty;
    return chunk;'''))
R('5 print text with fwrite', ('rawchunk.c', '''    for(i = 0; i < rawChunk->chunkSize; i++)
        printf("%c", rawChunk->chunkData[i]);

    printf("\\n");
    IFF_printIndent(stdout, indentLevel, "';\\n");''', '''    for(i = 0; i < rawChunk->chunkSize; i++)
        fputc(rawChunk->chunkData[i], stdout);

    fputc('\\n', stdout);
    IFF_printIndent(stdout, indentLevel, "';\\n");'''))
R('5 print raw nested loops', ('rawchunk.c', '''    for(i = 0; i < rawChunk->chunkSize; i++)
    {
        if(i > 0 && i % 10 == 0)
        {
            printf("\\n");
            IFF_printIndent(stdout, indentLevel + 1, "");
        }

        byte = rawChunk->chunkData[i];

        /* Print extra 0 for small numbers */
        if(byte <= 0xf)
            printf("0");

        printf("%x ", byte);
    }
''', '''    for(i = 0; i < rawChunk->chunkSize; i++)
    {
        static const char digits[] = "0123456789abcdef";

        byte = rawChunk->chunkData[i];

        if(i != 0 && (i % 10) == 0)
        {
            putchar('\\n');
            IFF_printIndent(stdout, indentLevel + 1, "");
        }

        putchar(digits[byte / 16]);
        putchar(digits[byte % 16]);
        putchar(' ');
    }
'''))
R('5 print raw dispatch switch', ('rawchunk.c', '''    if(rawChunk->chunkId == IFF_ID_TEXT)
        IFF_printText(rawChunk, indentLevel);
    else
        IFF_printRaw(rawChunk, indentLevel);''', '''    void (*printer) (const IFF_RawChunk *rawChunk, const unsigned int indentLevel) = &IFF_printRaw;

    switch(rawChunk->chunkId)
    {
        case IFF_ID_TEXT:
            printer = &IFF_printText;
            break;
    }

    printer(rawChunk, indentLevel);'''))
R('5 print id with fwrite', ('id.c', '''    for(i = 0; i < IFF_ID_SIZE; i++)
        printf("%c", id2[i]);''', '''    for(i = 0; i < IFF_ID_SIZE; i++)
        putchar(id2[i]);'''))
R('5 indent while', ('util.c', '''    for(i = 0; i < indentLevel; i++)
      fprintf(file, "  ");
''', '''    for(i = 0; i < indentLevel; i++)
      fputs("  ", file);
'''))
R('5 print group helper', ('group.c', '''    IFF_printIndent(stdout, indentLevel, "[\\n");

    for(i = 0; i < group->chunkLength; i++)
        IFF_printChunk((IFF_Chunk*)group->chunk[i], indentLevel + 1, group->groupType, chunkRegistry);

    IFF_printIndent(stdout, indentLevel, "];\\n");''', '''    const unsigned int inner = indentLevel + 1;
    IFF_Chunk **member = group->chunk;

    IFF_printIndent(stdout, indentLevel, "[\\n");

    for(i = group->chunkLength; i > 0; i--)
        IFF_printChunk(*member++, inner, group->groupType, chunkRegistry);

    IFF_printIndent(stdout, indentLevel, "];\\n");'''))
R('5 raw create guard', ('rawchunk.c', '''    if(rawChunk != NULL)
    {
        rawChunk->chunkData = (IFF_UByte*)malloc(chunkSize * sizeof(IFF_UByte));

        if(rawChunk->chunkData == NULL)
        {
            free(rawChunk);
            return NULL;
        }
    }

    return (IFF_Chunk*)rawChunk;''', '''    if(rawChunk == NULL)
        return NULL;

    if((rawChunk->chunkData = (IFF_UByte*)malloc(chunkSize)) != NULL)
        return (IFF_Chunk*)rawChunk;

    free(rawChunk);
    return NULL;'''))
R('5 set text through copy', ('rawchunk.c', '''    size_t textLength = strlen(text);
    IFF_UByte *chunkData = (IFF_UByte*)malloc(textLength * sizeof(IFF_UByte));

    if(chunkData == NULL)
        return FALSE;

    memcpy(chunkData, text, textLength);
    IFF_setRawChunkData(rawChunk, chunkData, textLength);
    return TRUE;''', '''    const size_t length = strlen(text);
    IFF_UByte *copy = (IFF_UByte*)malloc(length);
    IFF_Bool ok = copy != NULL;

    if(ok)
    {
        size_t i;

        for(i = 0; i < length; i++)
            copy[i] = (IFF_UByte)text[i];

        rawChunk->chunkSize = (IFF_Long)length;
        rawChunk->chunkData = copy;
    }

    return ok;'''))
R('5 raw read count first', ('rawchunk.c', '''    if(fread(rawChunk->chunkData, sizeof(IFF_UByte), rawChunk->chunkSize, file) < rawChunk->chunkSize)
    {
        IFF_error("Error reading raw chunk body of chunk: '");
        IFF_errorId(rawChunk->chunkId);
        IFF_error("'\\n");
        return FALSE;
    }
    else
    {
        *bytesProcessed = *bytesProcessed + rawChunk->chunkSize;
        return TRUE;
    }''', '''    const size_t size = rawChunk->chunkSize;
    const size_t got = fread(rawChunk->chunkData, 1, size, file);

    if(got == size)
    {
        *bytesProcessed += rawChunk->chunkSize;
        return TRUE;
    }

    IFF_error("Error reading raw chunk body of chunk: '");
    IFF_errorId(rawChunk->chunkId);
    IFF_error("'\\n");
    return FALSE;'''))
R('5 iff check switch table', ('iff.c', '''    if(chunk->chunkId != IFF_ID_FORM &&
       chunk->chunkId != IFF_ID_CAT &&
       chunk->chunkId != IFF_ID_LIST)
    {''', '''    static const IFF_ID mainIds[] = { IFF_ID_FORM, IFF_ID_CAT, IFF_ID_LIST };
    unsigned int i;

    for(i = 0; i < 3; i++)
    {
        if(chunk->chunkId == mainIds[i])
            break;
    }

    if(i == 3)
    {'''))
R('5 iff write file single exit', ('iff.c', '''    status = IFF_writeFd(file, chunk, chunkRegistry);

    /* Closing delivers the buffered data, which may fail as well */
    if(fclose(file) != 0)
    {
        IFF_error("ERROR: cannot write file: %s\\n", filename);
        status = FALSE;
    }

    return status;''', '''    status = IFF_writeFd(file, chunk, chunkRegistry);

    if(fclose(file) == 0)
        return status;

    IFF_error("ERROR: cannot write file: %s\\n", filename);
    return FALSE;'''))
R('5 iff stdin ternary', ('iff.c', '''    if(filename == NULL)
        return IFF_readFd(stdin, chunkRegistry);
    else
        return IFF_readFile(filename, chunkRegistry);''', '''    return (filename != NULL) ? IFF_readFile(filename, chunkRegistry) : IFF_readFd(stdin, chunkRegistry);'''))
R('5 read fd nested', ('iff.c', '''    if(chunk == NULL)
    {
        IFF_error("ERROR: cannot open main chunk!\\n");
        return NULL;
    }

    /* We should have reached the EOF now */

    if((byte = fgetc(file)) != EOF)
        IFF_error("WARNING: Trailing IFF contents found: %d!\\n", byte);
''', '''    if(chunk != NULL)
    {
        /* We should have reached the EOF now */
        byte = getc(file);

        if(byte >= 0)
            IFF_error("WARNING: Trailing IFF contents found: %d!\\n", byte);
    }
    else
        IFF_error("ERROR: cannot open main chunk!\\n");
'''))
R('5 cat contents check', ('cat.c', '''        if(checkValidCATSubChunkId(subChunk->chunkId))
        {
            IFF_Group *group = (IFF_Group*)subChunk;

            if(group->groupType != cat->contentsType)
            {
                IFF_error("Sub form does not match contentsType of the CAT!\\n");
                return FALSE;
            }
        }''', '''        const IFF_ID memberType = ((const IFF_Group*)subChunk)->groupType;

        if(memberType != cat->contentsType)
        {
            IFF_error("Sub form does not match contentsType of the CAT!\\n");
            return FALSE;
        }'''))
R('5 prop check by switch', ('prop.c', '''    if(subChunk->chunkId == IFF_ID_FORM ||
       subChunk->chunkId == IFF_ID_LIST ||
       subChunk->chunkId == IFF_ID_CAT ||
       subChunk->chunkId == IFF_ID_PROP)
    {
        IFF_error("ERROR: Element with chunk Id: '");
        IFF_errorId(subChunk->chunkId);
        IFF_error("' not allowed in PROP chunk!\\n");

        return FALSE;
    }
    else
        return TRUE;''', '''    switch(subChunk->chunkId)
    {
        case IFF_ID_FORM:
        case IFF_ID_LIST:
        case IFF_ID_CAT:
        case IFF_ID_PROP:
            break;
        default:
            return TRUE;
    }

    IFF_error("ERROR: Element with chunk Id: '");
    IFF_errorId(subChunk->chunkId);
    IFF_error("' not allowed in PROP chunk!\\n");
    return FALSE;'''))
R('5 join counts failures', ('iffjoin/join.c', '''        /* Check whether the IFF file is valid */
        if(chunk == NULL || !IFF_check(chunk, NULL)
            || !IFF_addToCATAndUpdateContentsType(cat, chunk)) /* Add the input IFF chunk to the concatenation */
        {
            if(chunk != NULL)
                IFF_free(chunk, NULL);

            IFF_free((IFF_Chunk*)cat, NULL);
            return 1;
        }
    }

    /* Write the resulting CAT to the output file or standard output */
    if(!IFF_write(outputFilename, (IFF_Chunk*)cat, NULL))
        status = 1;
''', '''        if(chunk == NULL)
        {
            status = 1;
            break;
        }

        if(!IFF_check(chunk, NULL) || !IFF_addToCATAndUpdateContentsType(cat, chunk))
        {
            IFF_free(chunk, NULL);
            status = 1;
            break;
        }
    }

    /* Write the resulting CAT to the output file or standard output */
    if(status == 0)
        status = IFF_write(outputFilename, (IFF_Chunk*)cat, NULL) ? 0 : 1;
'''))
R('5 join passes argv', ('iffjoin/main.c', '''        char **inputFilenames = (char**)malloc(inputFilenamesLength * sizeof(char*));
        unsigned int i;
        int status;

        if(inputFilenames == NULL)
        {
            fprintf(stderr, "ERROR: Cannot allocate memory for the input file names!\\n");
            return 1;
        }

        /* Create an array of input file names */
        for(i = 0; i < inputFilenamesLength; i++)
            inputFilenames[i] = argv[optind + i];

        /* Join the IFF files */
        status = IFF_join(inputFilenames, inputFilenamesLength, outputFilename);

        /* Cleanup */
        free(inputFilenames);

        /* Return whether the join has succeeded or not */
        return status;''', '''        return IFF_join(&argv[optind], inputFilenamesLength, outputFilename);'''))
R('5 pp early returns', ('iffpp/pp.c', '''        int status;

        /* Check the file */
        if((options & IFFPP_DISABLE_CHECK) || IFF_check(chunk, NULL))
        {
            /* Print the file */
            IFF_print(chunk, 0, NULL);

            /* Flushing delivers the buffered output, which may fail as well as anything printed before */
            if(fflush(stdout) != 0 || ferror(stdout))
            {
                fprintf(stderr, "Cannot write to the standard output!\\n");
                status = 1;
            }
            else
                status = 0;
        }
        else
            status = 1;

        /* Free the chunk structure */
        IFF_free(chunk, NULL);

        return status;''', '''        IFF_Bool valid = TRUE;

        if(!(options & IFFPP_DISABLE_CHECK))
            valid = IFF_check(chunk, NULL);

        if(valid)
            IFF_print(chunk, 0, NULL);

        IFF_free(chunk, NULL);

        if(!valid)
            return 1;

        if(fflush(stdout) == 0 && !ferror(stdout))
            return 0;

        fprintf(stderr, "Cannot write to the standard output!\\n");
        return 1;'''))
R('5 pp options flag', ('iffpp/main.c', 'options |= IFFPP_DISABLE_CHECK;\n                break;', 'options = options | IFFPP_DISABLE_CHECK;\n                break;\n            default:\n                break;'), ('iffpp/main.c', '''    if(optind >= argc)
        filename = NULL;
    else
        filename = argv[optind];''', '''    filename = argv[optind]; /* The argument vector ends with NULL */'''))
R('5 usage helper', ('iffpp/main.c', '''            case 'h':
                printUsage(argv[0]);
                return 0;
            case '?':
                printUsage(argv[0]);
                return 1;''', '''            case 'h':
            case '?':
                printUsage(argv[0]);
                return c == 'h' ? 0 : 1;'''))
R('5 error id via buffer', ('error.c', '''    for(i = 0; i < IFF_ID_SIZE; i++)
        IFF_error("%c", id2[i]);''', '''    i = 0;
    IFF_error("%c%c%c%c", id2[i], id2[i + 1], id2[i + 2], id2[i + 3]);'''))
R('5 error helper shared', ('error.c', 'void IFF_readError(', '''static void attributeError(const char *verb, const IFF_ID chunkId, const char *attributeName)
{
    IFF_error("Error %s '", verb);
    IFF_errorId(chunkId);
    IFF_error("'.%s\\n", attributeName);
}

void IFF_readError('''), ('error.c', '''    IFF_error("Error reading '");
    IFF_errorId(chunkId);
    IFF_error("'.%s\\n", attributeName);''', '''    attributeError("reading", chunkId, attributeName);'''))
R('5 compare group same length guard', ('group.c', '''    if(group1->groupType == group2->groupType && group1->chunkLength == group2->chunkLength)
    {
        unsigned int i;

        for(i = 0; i < group1->chunkLength; i++)
        {
            if(!IFF_compareChunk(group1->chunk[i], group2->chunk[i], group1->groupType, chunkRegistry))
                return FALSE;
        }

        return TRUE;
    }
    else
        return FALSE;''', '''    unsigned int i = 0;

    if(group1->groupType != group2->groupType || group1->chunkLength != group2->chunkLength)
        return FALSE;

    while(i < group1->chunkLength && IFF_compareChunk(group1->chunk[i], group2->chunk[i], group1->groupType, chunkRegistry))
        i++;

    return i == group1->chunkLength;'''))
R('5 compare lists single helper', ('group.c', 'IFF_Bool IFF_compareGroup(', '''static IFF_Bool sameMembers(IFF_Chunk **a, IFF_Chunk **b, unsigned int n, const IFF_ID type, const IFF_ChunkRegistry *chunkRegistry)
{
    unsigned int i;
    IFF_Bool same = TRUE;

    for(i = 0; same && i < n; i++)
        same = IFF_compareChunk(a[i], b[i], type, chunkRegistry);

    return same;
}

IFF_Bool IFF_compareGroup('''), ('group.c', '''        unsigned int i;

        for(i = 0; i < group1->chunkLength; i++)
        {
            if(!IFF_compareChunk(group1->chunk[i], group2->chunk[i], group1->groupType, chunkRegistry))
                return FALSE;
        }

        return TRUE;
    }''', '''        return sameMembers(group1->chunk, group2->chunk, group2->chunkLength, group1->groupType, chunkRegistry);
    }'''))
R('5 form list check flow', ('list.c', '''    if((subChunkSize = checkListPropChunks(list, chunkRegistry)) == -1)
        return FALSE;

    chunkSize += subChunkSize;

    /* Check validity of other sub chunks */
    if((subChunkSize = IFF_checkGroupSubChunks((IFF_Group*)list, &IFF_checkCATSubChunk, chunkRegistry)) == -1)
        return FALSE;

    chunkSize += subChunkSize;
''', '''    subChunkSize = checkListPropChunks(list, chunkRegistry);

    if(subChunkSize < 0)
        return FALSE;
    else
        chunkSize = chunkSize + subChunkSize;

    /* Check validity of other sub chunks */
    subChunkSize = IFF_checkGroupSubChunks((IFF_Group*)list, &IFF_checkCATSubChunk, chunkRegistry);

    if(subChunkSize < 0)
        return FALSE;
    else
        chunkSize = chunkSize + subChunkSize;
'''))
R('5 merge with early copy', ('form.c', '''    unsigned int newLength = *targetLength + sourceLength;
    IFF_Form **result;

    if(sourceLength == 0)
        return target;

    result = (IFF_Form**)realloc(target, newLength * sizeof(IFF_Form*));

    if(result == NULL)
        return target;

    for(i = 0; i < sourceLength; i++)
        result[i + *targetLength] = source[i];

    *targetLength = newLength;

    return result;''', '''    const unsigned int newLength = *targetLength + sourceLength;

    if(sourceLength > 0)
    {
        IFF_Form **result = (IFF_Form**)realloc(target, newLength * sizeof(*result));

        if(result != NULL)
        {
            IFF_Form **end = result + *targetLength;

            for(i = 0; i != sourceLength; ++i)
                *end++ = *source++;

            *targetLength = newLength;
            target = result;
        }
    }

    return target;'''))
