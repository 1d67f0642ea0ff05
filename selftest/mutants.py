"""(name, properties expected to report, [(file, old text, new text)]); an empty list of properties marks a refactoring"""
import os
L = 'libiff/'
MUTANTS = []


def M(name, props, *edits):
    MUTANTS.append((name, props.split(), [(f if '/' in f else L + f, a, b) for f, a, b in edits]))


def R(name, *edits):
    M('refactor: ' + name, '', *edits)


# ---------------------------------------------------------------- C04
M('filler ignores short fwrite', 'C04', ('io.c', 'fwrite(emptyData, sizeof(IFF_UByte), bytesToSkip, file) == bytesToSkip', 'fwrite(emptyData, sizeof(IFF_UByte), bytesToSkip, file) > 0'))
M('filler alloc failure is success', 'C04', ('io.c', 'IFF_Bool status = emptyData != NULL && fwrite', 'IFF_Bool status = emptyData == NULL || fwrite'))
M('pad write failure ignored', 'C04', ('io.c', "        if(fputc('\\0', file) == EOF)\n        {", "        if(fputc('\\0', file) == EOF)\n        {\n            if(chunkSize > 1) return TRUE;"))
M('raw write partial ok', 'C04', ('rawchunk.c', 'if(fwrite(rawChunk->chunkData, sizeof(IFF_UByte), rawChunk->chunkSize, file) < rawChunk->chunkSize)', 'if(rawChunk->chunkSize > 0 && fwrite(rawChunk->chunkData, sizeof(IFF_UByte), rawChunk->chunkSize, file) == 0)'))
M('group write skips failing sub chunk', 'C04', ('group.c', '            IFF_error("Error writing chunk!\\n");\n            return FALSE;', '            IFF_error("Error writing chunk!\\n");\n            continue;'))
M('prop write failure breaks loop', 'C04', ('list.c', '            IFF_error("Error writing PROP!\\n");\n            return FALSE;', '            IFF_error("Error writing PROP!\\n");\n            break;'))
M('writeFile ignores write status', 'C04', ('iff.c', 'status = IFF_writeFd(file, chunk, chunkRegistry);', 'IFF_writeFd(file, chunk, chunkRegistry); status = TRUE;'))
M('writeFile ignores fclose', 'C04', ('iff.c', 'cannot write file: %s\\n", filename);\n        status = FALSE;', 'cannot write file: %s\\n", filename);'))
M('writeUByte compares 0', 'C04', ('io.c', 'if(fputc(value, file) == EOF)', 'if(fputc(value, file) == 0)'))
M('id field failure reported as last', 'C04', ('field.c', '''IFF_FieldStatus IFF_writeIdField(FILE *file, const IFF_ID value, const IFF_Chunk *chunk, const char *attributeName, IFF_Long *bytesProcessed)
{
    size_t fieldSize = IFF_ID_SIZE;

    if(fieldDoesNotFitInChunk(fieldSize, chunk->chunkSize, *bytesProcessed))
        return IFF_FIELD_LAST;
    else if(IFF_writeId(file, value, chunk->chunkId, attributeName))
    {
        increaseBytesProcessed(bytesProcessed, fieldSize);
        return IFF_FIELD_MORE;
    }
    else
        return IFF_FIELD_FAILURE;''', '''IFF_FieldStatus IFF_writeIdField(FILE *file, const IFF_ID value, const IFF_Chunk *chunk, const char *attributeName, IFF_Long *bytesProcessed)
{
    size_t fieldSize = IFF_ID_SIZE;

    if(fieldDoesNotFitInChunk(fieldSize, chunk->chunkSize, *bytesProcessed))
        return IFF_FIELD_LAST;
    else if(IFF_writeId(file, value, chunk->chunkId, attributeName))
    {
        increaseBytesProcessed(bytesProcessed, fieldSize);
        return IFF_FIELD_MORE;
    }
    else
        return IFF_FIELD_LAST;'''))
M('group write: LAST is failure', 'C04', ('group.c', '''    if((status = IFF_writeIdField(file, group->groupType, chunk, groupTypeName, bytesProcessed)) != IFF_FIELD_MORE)
        return IFF_deriveSuccess(status);''', '''    if((status = IFF_writeIdField(file, group->groupType, chunk, groupTypeName, bytesProcessed)) != IFF_FIELD_MORE)
        return FALSE;'''))
M('writeChunk ignores pad', 'C04', ('chunk.c', '        && IFF_writePaddingByte(file, chunk->chunkSize, chunk->chunkId);', '        && (IFF_writePaddingByte(file, chunk->chunkSize, chunk->chunkId) || chunk->chunkSize > 1);'))
# ---------------------------------------------------------------- C05
M('read raw short ok', 'C05', ('rawchunk.c', 'rawChunk->chunkSize, file) < rawChunk->chunkSize)\n    {\n        IFF_error("Error reading', 'rawChunk->chunkSize, file) == 0 && rawChunk->chunkSize > 0)\n    {\n        IFF_error("Error reading'))
M('pad eof tolerated', 'C05', ('io.c', '''            IFF_error("Unexpected end of file, while reading padding byte of '");
            IFF_errorId(chunkId);
            IFF_error("'\\n");
            return FALSE;''', '''            IFF_error("Unexpected end of file, while reading padding byte of '");
            IFF_errorId(chunkId);
            IFF_error("'\\n");
            return TRUE;'''))
M('pad nonzero fails', 'C05', ('io.c', '            IFF_error("WARNING: Padding byte is non-zero!\\n");', '        {\n            IFF_error("WARNING: Padding byte is non-zero!\\n");\n            return FALSE;\n        }'))
M('readUByte via char', 'C05', ('io.c', 'int byte = fgetc(file);\n\n    if(byte == EOF)\n    {\n        IFF_readError', 'signed char byte = fgetc(file);\n\n    if(byte == EOF)\n    {\n        IFF_readError'))
M('skip eof stops quietly', 'C05', ('io.c', '''                IFF_errorId(chunkId);
                IFF_error("'\\n");
                return FALSE;
            }
        }''', '''                IFF_errorId(chunkId);
                IFF_error("'\\n");
                break;
            }
        }'''))
M('group read sub chunk fail tolerated', 'C05', ('group.c', '        if(chunk == NULL)\n            return FALSE;\n\n        /* Attach', '        if(chunk == NULL)\n            break;\n\n        /* Attach'))
M('list read sub chunk fail tolerated if some read', 'C05', ('list.c', '        if(chunk == NULL)\n            return FALSE;\n\n        /* Add', '        if(chunk == NULL)\n            return list->chunkLength > 0;\n\n        /* Add'))
M('readList error ignored', 'C05', ('list.c', '        IFF_error("Error reading chunk in list!\\n");\n        return FALSE;', '        IFF_error("Error reading chunk in list!\\n");\n        return list->propLength > 0;'))
M('readGroup error ignored', 'C05', ('group.c', '    if(!readGroupSubChunks(file, group, chunkRegistry, bytesProcessed))\n        return FALSE;\n', '    readGroupSubChunks(file, group, chunkRegistry, bytesProcessed);\n'))
M('readChunk returns partial on handler failure', 'C05', ('chunk.c', '            IFF_freeChunk(chunk, formType, chunkRegistry);\n            return NULL;', '            return chunk;'))
M('readULong eof', 'C05', ('io.c', 'if(fread(&readValue, sizeof(IFF_ULong), 1, file) == 1)', 'if(fread(&readValue, 1, sizeof(IFF_ULong), file) != 0)'))
M('attach failure ignored', 'C05 C08', ('group.c', '        if(!IFF_attachToGroup(group, chunk))\n        {\n            IFF_freeChunk(chunk, group->groupType, chunkRegistry);\n            return FALSE;\n        }', '        IFF_attachToGroup(group, chunk);'))
M('skip by seek', 'C05', ('io.c', 'for(i = 0; i < bytesToSkip; i++)\n        {\n            if(fgetc(file) == EOF)', 'for(i = 0; i < 1; i++)\n        {\n            if(fseek(file, bytesToSkip, SEEK_CUR) != 0)'))
# ---------------------------------------------------------------- refactorings
R('filler with fputc loop', ('io.c', '''        size_t bytesToSkip = chunkSize - bytesProcessed;
        IFF_UByte *emptyData = (IFF_UByte*)calloc(bytesToSkip, sizeof(IFF_UByte));
        IFF_Bool status = emptyData != NULL && fwrite(emptyData, sizeof(IFF_UByte), bytesToSkip, file) == bytesToSkip;
''', '''        IFF_Long bytesToSkip = chunkSize - bytesProcessed;
        IFF_Bool status = TRUE;
        IFF_Long k;
        IFF_UByte *emptyData = NULL;
        for(k = 0; status && k < bytesToSkip; k++)
            if(fputc(0, file) == EOF) status = FALSE;
'''))
R('filler memset', ('io.c', '(IFF_UByte*)calloc(bytesToSkip, sizeof(IFF_UByte));', '(IFF_UByte*)malloc(bytesToSkip);\n        if(emptyData != NULL) { size_t q; for(q = 0; q < bytesToSkip; q++) emptyData[q] = 0; }'))
R('group write status flag', ('group.c', '''    unsigned int i;

    for(i = 0; i < group->chunkLength; i++)
    {
        if(!IFF_writeChunk(file, group->chunk[i], group->groupType, chunkRegistry))
        {
            IFF_error("Error writing chunk!\\n");
            return FALSE;
        }

        /* Increase the bytes processed counter */
        *bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, group->chunk[i]);
    }

    return TRUE;''', '''    unsigned int i = 0;
    IFF_Bool status = TRUE;

    while(status && i < group->chunkLength)
    {
        const IFF_Chunk *sub = group->chunk[i++];
        status = IFF_writeChunk(file, sub, group->groupType, chunkRegistry);
        if(status)
            *bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, sub);
        else
            IFF_error("Error writing chunk!\\n");
    }

    return status;'''))
R('readChunk goto', ('chunk.c', '''        if(!chunkType->readExtensionChunkFields(file, chunk, chunkRegistry, &bytesProcessed)
            || !IFF_skipUnknownBytes(file, chunk->chunkId, chunkSize, bytesProcessed)
            || !IFF_readPaddingByte(file, chunkSize, chunk->chunkId))
        {
            IFF_freeChunk(chunk, formType, chunkRegistry);
            return NULL;
        }
''', '''        IFF_Bool status = chunkType->readExtensionChunkFields(file, chunk, chunkRegistry, &bytesProcessed);
        if(status)
            status = IFF_skipUnknownBytes(file, chunk->chunkId, chunkSize, bytesProcessed);
        if(status)
            status = IFF_readPaddingByte(file, chunkSize, chunk->chunkId);
        if(status)
            goto done;
        IFF_freeChunk(chunk, formType, chunkRegistry);
        chunk = NULL;
done: ;
'''))
R('skip countdown', ('io.c', '''        IFF_Long i;

        /* Read''', '''        IFF_Long i = bytesToSkip;

        /* Read'''), ('io.c', 'for(i = 0; i < bytesToSkip; i++)\n', 'while(i-- > 0)\n'))
R('readUWord bytes', ('io.c', '''    if(fread(&readUWord, sizeof(IFF_UWord), 1, file) == 1)
    {
#if IFF_BIG_ENDIAN == 1
        *value = readUWord;
#else
        /* Byte swap it */
        *value = (readUWord & 0xff) << 8 | (readUWord & 0xff00) >> 8;
#endif

        return TRUE;
    }''', '''    int hi = fgetc(file);
    int lo = hi == EOF ? EOF : fgetc(file);
    readUWord = (IFF_UWord)((hi << 8) | lo);

    if(lo != EOF)
    {
        *value = readUWord;
        return TRUE;
    }'''))
R('writeFile early', ('iff.c', '''    status = IFF_writeFd(file, chunk, chunkRegistry);

    /* Closing delivers the buffered data, which may fail as well */
    if(fclose(file) != 0)
    {
        IFF_error("ERROR: cannot write file: %s\\n", filename);
        status = FALSE;
    }

    return status;''', '''    if(!IFF_writeFd(file, chunk, chunkRegistry))
    {
        if(fclose(file) != 0)
            IFF_error("ERROR: cannot write file: %s\\n", filename);
        return FALSE;
    }
    if(fclose(file) == 0)
        return TRUE;
    IFF_error("ERROR: cannot write file: %s\\n", filename);
    return FALSE;'''))
# ---------------------------------------------------------------- C01
M('word sign mask', 'C01', ('io.c', '*value = (readWord & 0xff) << 8 | (readWord & 0xff00) >> 8;', '*value = (readWord & 0x7f) << 8 | (readWord & 0xff00) >> 8;'))
M('uword write not swapped', 'C01', ('io.c', 'IFF_UWord writeUWord = (value & 0xff) << 8 | (value & 0xff00) >> 8;', 'IFF_UWord writeUWord = value;'))
M('long middle bytes', 'C01', ('io.c', 'IFF_Long writeValue = (value & 0xff) << 24 | (value & 0xff00) << 8 | (value & 0xff0000) >> 8', 'IFF_Long writeValue = (value & 0xff) << 24 | (value & 0xff00) >> 8 << 8 | (value & 0xff0000) >> 8'))
M('ulong high byte lost bit', 'C01', ('io.c', '(readValue & 0xff0000) >> 8 | (readValue & 0xff000000) >> 24;', '(readValue & 0xff0000) >> 8 | (readValue & 0x7f000000) >> 24;'))
M('writeUByte masks', 'C01', ('io.c', 'if(fputc(value, file) == EOF)', 'if(fputc(value & 0x7f, file) == EOF)'))
M('be branch swaps', 'C01', ('io.c', '#if IFF_BIG_ENDIAN == 1\n        *value = readWord;', '#if IFF_BIG_ENDIAN == 1\n        *value = readWord << 8 | (readWord >> 8 & 0xff);'))
M('id through word', 'C01', ('id.c', 'return IFF_writeULong(file, id, chunkId, attributeName);', 'return IFF_writeULong(file, id & 0xff7fffff, chunkId, attributeName);'))
M('readUWord element swap', 'C01', ('io.c', 'fread(&readUWord, sizeof(IFF_UWord), 1, file) == 1', 'fread(&readUWord, 1, 1, file) == 1 && fread(&readUWord, 1, 1, file) == 1'))
R('shift first then mask', ('io.c', 'IFF_ULong writeValue = (value & 0xff) << 24 | (value & 0xff00) << 8 | (value & 0xff0000) >> 8 | (value & 0xff000000) >> 24;', 'IFF_ULong writeValue = value << 24 | ((value << 8) & 0xff0000u) | ((value >> 8) & 0xff00u) | value >> 24;'))
R('bytes of ulong', ('io.c', '''    if(fwrite(&writeValue, sizeof(IFF_ULong), 1, file) == 1)''', '''    IFF_UByte bytes[4];
    bytes[0] = value >> 24; bytes[1] = value >> 16; bytes[2] = value >> 8; bytes[3] = value;
    (void)writeValue;
    if(fwrite(bytes, 1, 4, file) == 4)'''))
R('builtin bswap', ('io.c', '*value = (readValue & 0xff) << 24 | (readValue & 0xff00) << 8 | (readValue & 0xff0000) >> 8 | (readValue & 0xff000000) >> 24;', '*value = __builtin_bswap32(readValue);'))
R('swap helper', ('io.c', 'IFF_Bool IFF_readUByte(', 'static IFF_UWord swap16(IFF_UWord v)\n{\n    return (IFF_UWord)((v << 8) | (v >> 8));\n}\n\nIFF_Bool IFF_readUByte('), ('io.c', '*value = (readWord & 0xff) << 8 | (readWord & 0xff00) >> 8;', '*value = (IFF_Word)swap16((IFF_UWord)readWord);'))
# ---------------------------------------------------------------- C02
M('filler one short', 'C02', ('io.c', 'size_t bytesToSkip = chunkSize - bytesProcessed;\n        IFF_UByte', 'size_t bytesToSkip = chunkSize - bytesProcessed - (chunkSize & 1);\n        IFF_UByte'))
M('filler garbage', 'C02', ('io.c', '(IFF_UByte*)calloc(bytesToSkip, sizeof(IFF_UByte));', '(IFF_UByte*)malloc(bytesToSkip);'))
M('pad by processed', 'C02', ('chunk.c', 'IFF_writePaddingByte(file, chunk->chunkSize, chunk->chunkId);', 'IFF_writePaddingByte(file, bytesProcessed, chunk->chunkId);'))
M('pad 0xff', 'C02', ('io.c', "fputc('\\0', file)", "fputc(0xff, file)"))
M('pad only when size over one', 'C02', ('io.c', 'if(chunkSize % 2 != 0) /* Check whether the chunk size is an odd number */\n    {\n        if(fputc', 'if(chunkSize % 2 != 0 && chunkSize > 1)\n    {\n        if(fputc'))
M('filler after pad', 'C02', ('chunk.c', '''        && IFF_writeZeroFillerBytes(file, chunk->chunkId, chunk->chunkSize, bytesProcessed)
        && IFF_writePaddingByte(file, chunk->chunkSize, chunk->chunkId);''', '''        && IFF_writePaddingByte(file, chunk->chunkSize, chunk->chunkId)
        && IFF_writeZeroFillerBytes(file, chunk->chunkId, chunk->chunkSize, bytesProcessed + (chunk->chunkSize & 1));'''))
M('padded size in header', 'C02', ('chunk.c', 'IFF_writeLong(file, chunk->chunkSize, chunk->chunkId, "chunkSize")', 'IFF_writeLong(file, chunk->chunkSize + (chunk->chunkSize & 1), chunk->chunkId, "chunkSize")'))
M('write starts at header', 'C02', ('chunk.c', 'IFF_Long bytesProcessed = 0;\n\n    return', 'IFF_Long bytesProcessed = IFF_ID_SIZE;\n\n    return'))
R('write chunk split status', ('chunk.c', '''    return chunkType->writeExtensionChunkFields(file, chunk, chunkRegistry, &bytesProcessed)
        && IFF_writeZeroFillerBytes(file, chunk->chunkId, chunk->chunkSize, bytesProcessed)
        && IFF_writePaddingByte(file, chunk->chunkSize, chunk->chunkId);''', '''    if(!chunkType->writeExtensionChunkFields(file, chunk, chunkRegistry, &bytesProcessed))
        return FALSE;
    while(bytesProcessed < chunk->chunkSize)
    {
        if(fputc(0, file) == EOF)
        {
            IFF_error("Error while writing chunk data of chunk: ");
            IFF_errorId(chunk->chunkId);
            return FALSE;
        }
        bytesProcessed++;
    }
    if((chunk->chunkSize & 1) && fputc(0, file) == EOF)
    {
        IFF_error("Error while writing padding byte of chunk: ");
        IFF_errorId(chunk->chunkId);
        return FALSE;
    }
    return TRUE;'''))
R('filler in blocks', ('io.c', '''        IFF_UByte *emptyData = (IFF_UByte*)calloc(bytesToSkip, sizeof(IFF_UByte));
        IFF_Bool status = emptyData != NULL && fwrite(emptyData, sizeof(IFF_UByte), bytesToSkip, file) == bytesToSkip;
''', '''        static const IFF_UByte zeros[8] = { 0 };
        IFF_UByte *emptyData = NULL;
        IFF_Bool status = TRUE;
        size_t left = bytesToSkip;
        while(status && left > 0)
        {
            size_t n = left > sizeof(zeros) ? sizeof(zeros) : left;
            status = fwrite(zeros, 1, n, file) == n;
            left -= n;
        }
'''))
# ---------------------------------------------------------------- C03
M('skip uses stored size', 'C03', ('chunk.c', '|| !IFF_skipUnknownBytes(file, chunk->chunkId, chunkSize, bytesProcessed)', '|| !IFF_skipUnknownBytes(file, chunk->chunkId, chunkSize + (chunkSize & 1), bytesProcessed)'))
M('skip off by one', 'C03', ('io.c', 'for(i = 0; i < bytesToSkip; i++)', 'for(i = 1; i < bytesToSkip; i++)'))
M('read pad by processed', 'C03', ('chunk.c', '|| !IFF_readPaddingByte(file, chunkSize, chunk->chunkId))', '|| !IFF_readPaddingByte(file, bytesProcessed, chunk->chunkId))'))
M('pad skipped for truncated', 'C03', ('chunk.c', '|| !IFF_readPaddingByte(file, chunkSize, chunk->chunkId))', '|| (bytesProcessed <= chunkSize && !IFF_readPaddingByte(file, chunkSize, chunk->chunkId)))'))
M('create with rounded size', 'C03', ('chunk.c', 'createExtensionChunk(chunkId, chunkSize);', 'createExtensionChunk(chunkId, chunkSize & ~1);'))
M('read counts header', 'C03', ('chunk.c', 'IFF_Long bytesProcessed = 0;\n\n        /* Read rem', 'IFF_Long bytesProcessed = chunkSize > 8 ? 1 : 0;\n\n        /* Read rem'))
R('skip with buffer', ('io.c', '''        for(i = 0; i < bytesToSkip; i++)
        {
            if(fgetc(file) == EOF)
            {''', '''        char buf[16];
        for(i = 0; i < bytesToSkip; )
        {
            size_t n = bytesToSkip - i < 16 ? bytesToSkip - i : 16;
            size_t got = fread(buf, 1, n, file);
            i += got;
            if(got < n)
            {'''))
# ---------------------------------------------------------------- C07
M('fit ignores last byte', 'C07', ('field.c', 'bytesProcessed > chunkSize - (IFF_Long)fieldSize', 'bytesProcessed >= chunkSize - (IFF_Long)fieldSize'))
M('fit only start', 'C07', ('field.c', 'bytesProcessed > chunkSize - (IFF_Long)fieldSize', 'bytesProcessed >= chunkSize'))
M('fit overflow', 'C07', ('field.c', 'bytesProcessed > chunkSize - (IFF_Long)fieldSize', 'bytesProcessed + (IFF_Long)fieldSize > chunkSize'))
M('word field sized long', 'C07', ('field.c', 'size_t fieldSize = sizeof(IFF_Word);', 'size_t fieldSize = sizeof(IFF_Long);'))
M('deriveSuccess only more', 'C07', ('field.c', 'return (status != IFF_FIELD_FAILURE);', 'return (status == IFF_FIELD_MORE);'))
M('count before transfer', 'C07', ('field.c', '''    else if(IFF_readLong(file, value, chunk->chunkId, attributeName))
    {
        increaseBytesProcessed(bytesProcessed, fieldSize);
        return IFF_FIELD_MORE;
    }
    else
        return IFF_FIELD_FAILURE;''', '''    increaseBytesProcessed(bytesProcessed, fieldSize);
    return IFF_readLong(file, value, chunk->chunkId, attributeName) ? IFF_FIELD_MORE : IFF_FIELD_FAILURE;'''))
R('field fit by remaining', ('field.c', 'return chunkSize < 0 || (size_t)chunkSize < fieldSize || bytesProcessed > chunkSize - (IFF_Long)fieldSize;', 'long remaining = (long)chunkSize - (long)bytesProcessed;\n    if(chunkSize < 0)\n        return TRUE;\n    return remaining < (long)fieldSize;'))
# ---------------------------------------------------------------- C06
M('write skips last', 'C06', ('group.c', '    for(i = 0; i < group->chunkLength; i++)\n    {\n        if(!IFF_writeChunk', '    for(i = 0; i + 1 < group->chunkLength || i == 0 && group->chunkLength == 1; i++)\n    {\n        if(!IFF_writeChunk'))
M('write reverse order', 'C06', ('group.c', 'IFF_writeChunk(file, group->chunk[i], group->groupType', 'IFF_writeChunk(file, group->chunk[group->chunkLength - 1 - i], group->groupType'))
M('write props after chunks', 'C06', ('list.c', '''    if(!writeListPropChunks(file, list, chunkRegistry, bytesProcessed))
        return FALSE;

    if(!IFF_writeGroupSubChunks(file, (const IFF_Group*)chunk, chunkRegistry, bytesProcessed))
        return FALSE;
''', '''    if(!IFF_writeGroupSubChunks(file, (const IFF_Group*)chunk, chunkRegistry, bytesProcessed))
        return FALSE;

    if(!writeListPropChunks(file, list, chunkRegistry, bytesProcessed))
        return FALSE;
'''))
M('write count without pad', 'C06', ('list.c', '*bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, (IFF_Chunk*)list->prop[i]);', '*bytesProcessed += 8 + list->prop[i]->chunkSize;'))
M('read forgets odd last', 'C06', ('group.c', 'while(*bytesProcessed < group->chunkSize)', 'while(*bytesProcessed + 1 < group->chunkSize)'))
M('read loop until 8 left', 'C06', ('list.c', 'while(*bytesProcessed < list->chunkSize)', 'while(*bytesProcessed + 8 < list->chunkSize)'))
M('list PROP first only', 'C06', ('list.c', 'if(chunk->chunkId == IFF_ID_PROP)\n            status', 'if(chunk->chunkId == IFF_ID_PROP && list->chunkLength == 0)\n            status'))
M('list prop to chunk', 'C06', ('list.c', 'status = addPropToList(list, (IFF_Prop*)chunk);', 'status = IFF_attachToGroup((IFF_Group*)list, chunk);'))
M('write skips empty chunks', 'C06', ('group.c', '        if(!IFF_writeChunk(file, group->chunk[i]', '        if(group->chunk[i]->chunkSize > 0 && !IFF_writeChunk(file, group->chunk[i]'))
M('write same first', 'C06', ('list.c', 'IFF_writeChunk(file, (IFF_Chunk*)list->prop[i], list->contentsType', 'IFF_writeChunk(file, (IFF_Chunk*)list->prop[i > 1 ? 1 : i], list->contentsType'))
M('group type swapped with id', 'C06', ('list.c', 'IFF_writeIdField(file, list->contentsType, chunk', 'IFF_writeIdField(file, list->chunkLength > 0 ? list->contentsType : IFF_ID_JJJJ, chunk'))
R('write pointer walk', ('group.c', '''    unsigned int i;

    for(i = 0; i < group->chunkLength; i++)
    {
        if(!IFF_writeChunk(file, group->chunk[i], group->groupType, chunkRegistry))''', '''    IFF_Chunk **p, **end = group->chunk + group->chunkLength;
    unsigned int i = 0;

    for(p = group->chunk; p != end; p++, i++)
    {
        if(!IFF_writeChunk(file, *p, group->groupType, chunkRegistry))'''))
R('read for loop local count', ('group.c', '''    while(*bytesProcessed < group->chunkSize)
    {
        /* Read sub chunk */''', '''    for(; *bytesProcessed < group->chunkSize;)
    {'''))
R('shared helper for writing arrays', ('group.c', 'IFF_Bool IFF_writeGroupSubChunks(', '''static IFF_Bool writeArray(FILE *file, IFF_Chunk **array, unsigned int n, IFF_ID type, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
{
    unsigned int k;
    for(k = n; k > 0; k--)
    {
        IFF_Chunk *c = array[n - k];
        if(!IFF_writeChunk(file, c, type, chunkRegistry))
            return FALSE;
        *bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, c);
    }
    return TRUE;
}

IFF_Bool IFF_writeGroupSubChunks('''), ('group.c', '''    unsigned int i;

    for(i = 0; i < group->chunkLength; i++)
    {
        if(!IFF_writeChunk(file, group->chunk[i], group->groupType, chunkRegistry))
        {
            IFF_error("Error writing chunk!\\n");
            return FALSE;
        }

        /* Increase the bytes processed counter */
        *bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, group->chunk[i]);
    }

    return TRUE;''', '    return writeArray(file, group->chunk, group->chunkLength, group->groupType, chunkRegistry, bytesProcessed);'))
R('increment with bit', ('group.c', '''    if(chunk->chunkSize % 2 != 0)
        returnValue++;
''', '    returnValue += chunk->chunkSize & 1;\n'))
# ---------------------------------------------------------------- C18
M('padding forgotten', 'C18', ('group.c', '    if(chunk->chunkSize % 2 != 0)\n        returnValue++;', '    if(chunkSize % 2 != 0)\n        returnValue++;'))
M('padding only small', 'C18', ('group.c', 'if(chunk->chunkSize % 2 != 0)\n        returnValue++;', 'if(chunk->chunkSize % 4 == 1)\n        returnValue++;'))
M('update ignores last', 'C18', ('group.c', '''    group->chunkSize = IFF_ID_SIZE;

    for(i = 0; i < group->chunkLength; i++)''', '''    group->chunkSize = IFF_ID_SIZE;

    for(i = 0; i + 1 < group->chunkLength; i++)'''))
M('update keeps old size', 'C18', ('group.c', '    group->chunkSize = IFF_ID_SIZE;\n\n    for(', '    if(group->chunkLength == 0 || group->chunkSize < IFF_ID_SIZE)\n        group->chunkSize = IFF_ID_SIZE;\n\n    for('))
M('update list without props', 'C18', ('list.c', '    for(i = 0; i < list->propLength; i++)\n        list->chunkSize = IFF_inc', '    for(i = 1; i < list->propLength; i++)\n        list->chunkSize = IFF_inc'))
M('update PROP not dispatched', 'C18', ('group.c', 'case IFF_ID_PROP:\n            IFF_updatePropChunkSizes((IFF_Prop*)chunk);\n            break;', 'case IFF_ID_PROP:\n            break;'))
M('update LIST as CAT', 'C18', ('group.c', 'IFF_updateListChunkSizes((IFF_List*)chunk);', 'IFF_updateCATChunkSizes((IFF_CAT*)chunk);'))
M('ancestor of CAT skipped', 'C18', ('group.c', 'if(chunk->parent != NULL)\n        IFF_update', 'if(chunk->parent != NULL && chunk->chunkId != IFF_ID_CAT)\n        IFF_update'))
M('prop added without size', 'C18', ('list.c', '    list->chunkSize = chunkSize;', '    list->chunkSize += prop->chunkSize + 8;'))
M('empty group size 0', 'C18', ('list.c', 'return IFF_createList(IFF_ID_SIZE', 'return IFF_createList(0'))
# ---------------------------------------------------------------- C19
M('append at wrong index', 'C19', ('group.c', 'group->chunk[group->chunkLength] = chunk;\n    group->chunkLength++;', 'group->chunkLength++;\n    group->chunk[group->chunkLength - (group->chunkLength > 2)] = chunk;'))
M('prop parent missing', 'C19', ('list.c', '    prop->parent = (IFF_Group*)list;\n', ''))
M('prop parent only first', 'C19', ('list.c', '    prop->parent = (IFF_Group*)list;\n', '    prop->parent = list->parent;\n'))
M('fresh array', 'C19', ('list.c', 'realloc(list->prop, (list', 'realloc(NULL, (list'))
M('JJJJ lost', 'C19', ('cat.c', "cat->contentsType != IFF_ID_JJJJ && cat->contentsType != group->groupType", "cat->contentsType != IFF_ID_JJJJ && cat->contentsType < group->groupType"))
M('contents type after add', 'C19', ('cat.c', 'if(cat->chunkLength == 1)', 'if(cat->chunkLength <= 2)'))
M('create leaves propLength', 'C19', ('list.c', '        list->propLength = 0;\n', ''))
M('create leaves parent', 'C19', ('chunk.c', '        chunk->parent = NULL;\n', ''))
M('list id of CAT', 'C19', ('list.c', 'IFF_createChunk(IFF_ID_LIST, chunkSize', 'IFF_createChunk(IFF_ID_CAT, chunkSize'))
M('read leaves parent', 'C19', ('group.c', '    chunk->parent = group;\n\n    return TRUE;', '    if(group->chunkSize == 0) chunk->parent = group;\n\n    return TRUE;'))
R('append with pre-increment', ('group.c', 'group->chunk[group->chunkLength] = chunk;\n    group->chunkLength++;', 'group->chunk[group->chunkLength++] = chunk;'))
R('append alloc helper', ('group.c', 'IFF_Bool IFF_attachToGroup(', 'static IFF_Chunk **grow(IFF_Chunk **array, unsigned int length)\n{\n    return (IFF_Chunk**)realloc(array, sizeof(IFF_Chunk*) * (length + 1));\n}\n\nIFF_Bool IFF_attachToGroup('), ('group.c', '(IFF_Chunk**)realloc(group->chunk, (group->chunkLength + 1) * sizeof(IFF_Chunk*));', 'grow(group->chunk, group->chunkLength);'))
R('parents in a loop', ('group.c', '''void IFF_updateChunkSizes(IFF_Chunk *chunk)
{''', '''void IFF_updateChunkSizes(IFF_Chunk *chunk)
{
  while(chunk != NULL)
  {'''), ('group.c', '''    if(chunk->parent != NULL)
        IFF_updateChunkSizes((IFF_Chunk*)chunk->parent);''', '''    chunk = (IFF_Chunk*)chunk->parent;
  }'''))
R('update with local sum', ('group.c', '''    group->chunkSize = IFF_ID_SIZE;

    for(i = 0; i < group->chunkLength; i++)
        group->chunkSize = IFF_incrementChunkSize(group->chunkSize, group->chunk[i]);''', '''    IFF_Long sum = IFF_ID_SIZE;

    for(i = 0; i < group->chunkLength; i++)
        sum = IFF_incrementChunkSize(sum, group->chunk[i]);
    group->chunkSize = sum;'''))
R('contents type switch', ('cat.c', '''        if(cat->chunkLength == 1)
            cat->contentsType = group->groupType;
        else if(cat->contentsType != IFF_ID_JJJJ && cat->contentsType != group->groupType)
            cat->contentsType = IFF_ID_JJJJ;''', '''        IFF_ID type = group->groupType;
        if(cat->chunkLength > 1 && type != cat->contentsType)
            type = IFF_ID_JJJJ;
        cat->contentsType = type;'''))
# ---------------------------------------------------------------- C22
M('exit on allocation failure', 'C22', ('group.c', '    if(newChunk == NULL)\n        return FALSE;\n\n    group->chunk = newChunk', '    if(newChunk == NULL)\n        exit(1);\n\n    group->chunk = newChunk'))
M('abort in helper', 'C22', ('chunk.c', 'static IFF_Bool writeChunkBody', 'static void oops(const IFF_Chunk *c) { if(c->chunkSize < 0) abort(); }\n\nstatic IFF_Bool writeChunkBody'), ('chunk.c', '    return IFF_writeId(file, chunk->chunkId, chunk->chunkId, "chunkId")', '    oops(chunk);\n    return IFF_writeId(file, chunk->chunkId, chunk->chunkId, "chunkId")'))
M('warning on stderr', 'C22', ('iff.c', 'IFF_error("WARNING: Trailing IFF contents found: %d!\\n", byte);', 'fprintf(stderr, "WARNING: Trailing IFF contents found: %d!\\n", byte);'))
M('perror', 'C22', ('iff.c', 'IFF_error("ERROR: cannot open file: %s\\n", filename);\n        return NULL;', 'perror(filename);\n        return NULL;'))
M('check prints id on stdout', 'C22', ('group.c', 'IFF_error("Chunk size mismatch! ");\n        IFF_errorId(group->chunkId);', 'IFF_error("Chunk size mismatch! ");\n        IFF_printId(group->chunkId);'), ('group.c', '#include "util.h"', '#include "util.h"'))
M('trailing byte read from stdin', 'C22', ('iff.c', '(byte = fgetc(file)) != EOF', '(byte = fgetc(file == NULL ? file : stdin)) != EOF'))
M('sigpipe ignored', 'C22', ('iff.c', '    IFF_Bool status;\n    FILE *file = fopen(filename, "wb");', '    IFF_Bool status;\n    FILE *file = fopen(filename, "wb");\n    signal(SIGPIPE, SIG_IGN);'), ('iff.c', '#include <stdio.h>', '#include <stdio.h>\n#include <signal.h>'))
# ---------------------------------------------------------------- C23
M('error text as format', 'C23', ('iff.c', 'IFF_error("ERROR: cannot open file: %s\\n", filename);\n        return NULL;', 'IFF_error(filename);\n        return NULL;'))
M('missing argument', 'C23', ('group.c', 'IFF_error(" size: %d, while body has: %d\\n", group->chunkSize, chunkSize);', 'IFF_error(" size: %d, while body has: %d\\n", group->chunkSize);'))
M('id printed as string', 'C23', ('group.c', 'IFF_error("Chunk size mismatch! ");\n        IFF_errorId(group->chunkId);', 'IFF_error("Chunk size mismatch! %s", group->chunkId);'))
M('payload printed as string', 'C23', ('rawchunk.c', '''    for(i = 0; i < rawChunk->chunkSize; i++)
        printf("%c", rawChunk->chunkData[i]);''', '    printf("%s", (char*)rawChunk->chunkData);'))
M('wide conversion', 'C23', ('chunk.c', '"chunkSize = %d;\\n", chunk->chunkSize', '"chunkSize = %ld;\\n", chunk->chunkSize'))
M('id array unterminated', 'C23', ('id.c', '''    for(i = 0; i < IFF_ID_SIZE; i++)
        printf("%c", id2[i]);''', '    i = 0;\n    printf("%s", (char*)id2);'))
# ---------------------------------------------------------------- C24
M('cached last type', 'C24', ('chunkregistry.c', '    if(chunkTypesNode == NULL)\n        return NULL;\n    else\n    {\n        IFF_ChunkType *result;', '    static IFF_ChunkType *last;\n    if(chunkTypesNode == NULL)\n        return NULL;\n    else\n    {\n        IFF_ChunkType *result;\n        if(last == NULL) last = chunkTypesNode->chunkTypes;'))
M('static key', 'C24', ('chunkregistry.c', 'IFF_ChunkType key;', 'static IFF_ChunkType key;'))
M('static id buffer', 'C24', ('id.c', '    IFF_ID2 id2;\n    unsigned int i;\n\n    IFF_idToString(id, id2);\n\n    for(i = 0; i < IFF_ID_SIZE; i++)\n        printf', '    static IFF_ID2 id2;\n    unsigned int i;\n\n    IFF_idToString(id, id2);\n\n    for(i = 0; i < IFF_ID_SIZE; i++)\n        printf'))
M('registry sorted in place', 'C24', ('chunkregistry.c', '        IFF_FormChunkTypes key;', '        IFF_FormChunkTypes key;\n        ((IFF_ChunkRegistry*)chunkRegistry)->formChunkTypesLength += 0 * formType;\n        if(chunkRegistry->formChunkTypes != NULL) chunkRegistry->formChunkTypes[0].formType = chunkRegistry->formChunkTypes[0].formType;'))
M('error counter', 'C24', ('error.c', 'void IFF_error(', 'static int errors;\n\nint IFF_errorCount(void) { return errors; }\n\nvoid IFF_bump(void) { errors++; }\n\nvoid IFF_error('))
# ---------------------------------------------------------------- C27
M('form struct reordered', 'C27', ('form.h', '''    unsigned int chunkLength;''', '''    unsigned int reserved;
    unsigned int chunkLength;'''))
M('LIST created as group', 'C27', ('list.c', 'IFF_createChunk(IFF_ID_LIST, chunkSize, sizeof(IFF_List))', 'IFF_createChunk(IFF_ID_LIST, chunkSize, sizeof(IFF_Group))'))
M('LIST compared as CAT', 'C27', ('defaultregistry.c', '&IFF_printList, &IFF_compareList', '&IFF_printList, &IFF_compareCAT'))
M('LIST created by CAT creator', 'C27', ('defaultregistry.c', '{IFF_ID_LIST, &IFF_createUnparsedList', '{IFF_ID_LIST, &IFF_createUnparsedCAT'))
M('CAT freed as LIST', 'C27', ('defaultregistry.c', '&IFF_checkCAT, &IFF_freeCAT', '&IFF_checkCAT, &IFF_freeList'))
M('raw freed as group', 'C27', ('defaultregistry.c', '&IFF_freeRawChunk', '&IFF_freeForm'))
R('registry const tables', ('defaultregistry.c', 'static IFF_ChunkType IFF_globalChunkTypes[] = {', '#define ROW(id, k) {id, &IFF_createUnparsed##k, &IFF_read##k, &IFF_write##k, &IFF_check##k, &IFF_free##k, &IFF_print##k, &IFF_compare##k}\nstatic IFF_ChunkType IFF_globalChunkTypes[] = {'), ('defaultregistry.c', '{IFF_ID_CAT, &IFF_createUnparsedCAT, &IFF_readCAT, &IFF_writeCAT, &IFF_checkCAT, &IFF_freeCAT, &IFF_printCAT, &IFF_compareCAT}', 'ROW(IFF_ID_CAT, CAT)'))
R('PROP uses form functions', ('defaultregistry.c', '&IFF_freeProp, &IFF_printProp, &IFF_compareProp', '&IFF_freeForm, &IFF_printForm, &IFF_compareForm'))
R('error id in one message', ('error.c', 'IFF_error(', 'IFF_error('))
R('diagnostic helper', ('iff.c', 'IFF_Chunk *IFF_readFd(', 'static void cannotOpen(const char *name)\n{\n    IFF_error("ERROR: cannot open file: %s\\n", name);\n}\n\nIFF_Chunk *IFF_readFd('), ('iff.c', 'IFF_error("ERROR: cannot open file: %s\\n", filename);\n        return NULL;', 'cannotOpen(filename);\n        return NULL;'))
# ---------------------------------------------------------------- C12
M('parent table ignored', 'C12', ('chunkregistry.c', 'return getChunkType(chunkId, chunkTypesNode->parent);', 'return NULL;'))
M('parent only once', 'C12', ('chunkregistry.c', 'return getChunkType(chunkId, chunkTypesNode->parent);', 'return chunkTypesNode->parent == NULL || chunkTypesNode->parent->parent == NULL ? getChunkType(chunkId, chunkTypesNode->parent) : NULL;'))
M('global first', 'C12', ('chunkregistry.c', '        if(formChunkTypes != NULL)\n            result', '        result = getChunkType(chunkId, chunkRegistry->globalChunkTypesNode);\n        if(result == NULL && formChunkTypes != NULL)\n            result'))
M('no global fallback for registered forms', 'C12', ('chunkregistry.c', '        if(result == NULL)\n            result = getChunkType(chunkId, chunkRegistry->globalChunkTypesNode);', '        else\n            result = getChunkType(chunkId, chunkRegistry->globalChunkTypesNode);'))
M('comparator subtracts', 'C12', ('chunkregistry.c', '''    if(l->chunkId < r->chunkId)
        return -1;
    else if(l->chunkId > r->chunkId)
        return 1;
    else
        return 0;''', '''    return (int)(l->chunkId - r->chunkId);'''))
M('comparator signed', 'C12', ('chunkregistry.c', '    if(l->formType < r->formType)\n        return -1;\n    else if(l->formType > r->formType)', '    if((int)l->formType < (int)r->formType)\n        return -1;\n    else if((int)l->formType > (int)r->formType)'))
M('last entry not searched', 'C12', ('chunkregistry.c', 'chunkTypesNode->chunkTypes, chunkTypesNode->chunkTypesLength,', 'chunkTypesNode->chunkTypes, chunkTypesNode->chunkTypesLength - (chunkTypesNode->chunkTypesLength > 1),'))
M('element size of other struct', 'C12', ('chunkregistry.c', 'chunkRegistry->formChunkTypesLength, sizeof(IFF_FormChunkTypes)', 'chunkRegistry->formChunkTypesLength, sizeof(IFF_ChunkTypesNode)'))
M('table unsorted', 'C12', ('defaultregistry.c', '''    {IFF_ID_CAT, &IFF_createUnparsedCAT, &IFF_readCAT, &IFF_writeCAT, &IFF_checkCAT, &IFF_freeCAT, &IFF_printCAT, &IFF_compareCAT},
    {IFF_ID_FORM, &IFF_createUnparsedForm, &IFF_readForm, &IFF_writeForm, &IFF_checkForm, &IFF_freeForm, &IFF_printForm, &IFF_compareForm},''', '''    {IFF_ID_FORM, &IFF_createUnparsedForm, &IFF_readForm, &IFF_writeForm, &IFF_checkForm, &IFF_freeForm, &IFF_printForm, &IFF_compareForm},
    {IFF_ID_CAT, &IFF_createUnparsedCAT, &IFF_readCAT, &IFF_writeCAT, &IFF_checkCAT, &IFF_freeCAT, &IFF_printCAT, &IFF_compareCAT},'''))
M('table length short', 'C12', ('defaultregistry.c', '    IFF_NUM_OF_CHUNK_TYPES, IFF_globalChunkTypes, NULL', '    IFF_NUM_OF_CHUNK_TYPES - 1, IFF_globalChunkTypes, NULL'))
M('form 0 never', 'C12', ('chunkregistry.c', '        if(formChunkTypes != NULL)', '        if(formChunkTypes != NULL && formType <= 0x7fffffff)'))
R('linear search', ('chunkregistry.c', '        result = (IFF_ChunkType*)bsearch(&key, chunkTypesNode->chunkTypes, chunkTypesNode->chunkTypesLength, sizeof(IFF_ChunkType), &compareChunkTypes);', '        unsigned int i;\n        result = NULL;\n        for(i = 0; i < chunkTypesNode->chunkTypesLength; i++)\n        {\n            if(compareChunkTypes(&key, &chunkTypesNode->chunkTypes[i]) == 0)\n            {\n                result = &chunkTypesNode->chunkTypes[i];\n                break;\n            }\n        }'))
R('iterative chain', ('chunkregistry.c', '''    if(chunkTypesNode == NULL)
        return NULL;
    else
    {
        IFF_ChunkType *result;
        IFF_ChunkType key;
        key.chunkId = chunkId;

        result = (IFF_ChunkType*)bsearch(&key, chunkTypesNode->chunkTypes, chunkTypesNode->chunkTypesLength, sizeof(IFF_ChunkType), &compareChunkTypes);

        if(result == NULL)
            return getChunkType(chunkId, chunkTypesNode->parent);
        else
            return result;
    }''', '''    IFF_ChunkType key;
    key.chunkId = chunkId;

    while(chunkTypesNode != NULL)
    {
        IFF_ChunkType *result = (IFF_ChunkType*)bsearch(&key, chunkTypesNode->chunkTypes, chunkTypesNode->chunkTypesLength, sizeof(IFF_ChunkType), &compareChunkTypes);

        if(result != NULL)
            return result;
        chunkTypesNode = chunkTypesNode->parent;
    }
    return NULL;'''))
R('comparator as difference of truths', ('chunkregistry.c', '''    if(l->chunkId < r->chunkId)
        return -1;
    else if(l->chunkId > r->chunkId)
        return 1;
    else
        return 0;''', '''    return (l->chunkId > r->chunkId) - (l->chunkId < r->chunkId);'''))
R('lookup early returns', ('chunkregistry.c', '        if(result == NULL)\n            return chunkRegistry->defaultChunkType;\n        else\n            return result;', '        return result != NULL ? result : chunkRegistry->defaultChunkType;'))
# ---------------------------------------------------------------- C13
M('group freed without context', 'C13', ('group.c', 'IFF_freeChunk(group->chunk[i], group->groupType, chunkRegistry);', 'IFF_freeChunk(group->chunk[i], 0, chunkRegistry);'))
M('props printed without context', 'C13', ('list.c', 'IFF_printChunk((IFF_Chunk*)list->prop[i], indentLevel + 1, list->contentsType, chunkRegistry);', 'IFF_printChunk((IFF_Chunk*)list->prop[i], indentLevel + 1, list->prop[i]->formType, chunkRegistry);'))
M('sub chunk written in default registry', 'C13', ('group.c', '#include "util.h"', '#include "util.h"\n#include "defaultregistry.h"'), ('group.c', 'if(!IFF_writeChunk(file, group->chunk[i], group->groupType, chunkRegistry))', 'if(!IFF_writeChunk(file, group->chunk[i], group->groupType, &IFF_defaultChunkRegistry))'))
M('compare without registry', 'C13', ('iff.c', 'return IFF_compareChunk(chunk1, chunk2, 0, selectChunkRegistry(chunkRegistry));', 'return IFF_compareChunk(chunk1, chunk2, 0, chunkRegistry);'))
M('check context main', 'C13', ('iff.c', 'return IFF_checkChunk(chunk, 0, selectChunkRegistry(chunkRegistry));', 'return IFF_checkChunk(chunk, chunk->chunkId, selectChunkRegistry(chunkRegistry));'))
M('read failure freed in wrong context', 'C13', ('chunk.c', '            IFF_freeChunk(chunk, formType, chunkRegistry);', '            IFF_freeChunk(chunk, chunkId, chunkRegistry);'))
M('print uses id context', 'C13', ('chunk.c', '''    IFF_ChunkType *chunkType = IFF_findChunkType(chunkRegistry, formType, chunk->chunkId);

    IFF_printIndent''', '''    IFF_ChunkType *chunkType = IFF_findChunkType(chunkRegistry, chunk->parent == NULL ? formType : chunk->parent->groupType, chunk->chunkId);

    IFF_printIndent'''))
M('free by parent id', 'C13', ('chunk.c', '''    IFF_ChunkType *chunkType = IFF_findChunkType(chunkRegistry, formType, chunk->chunkId);
    chunkType->free''', '''    IFF_ChunkType *chunkType = IFF_findChunkType(chunkRegistry, formType, chunk->chunkSize == 0 ? 0 : chunk->chunkId);
    chunkType->free'''))
M('attach failure freed in own context', 'C13', ('group.c', 'IFF_freeChunk(chunk, group->groupType, chunkRegistry);\n            return FALSE;', 'IFF_freeChunk(chunk, ((IFF_Group*)chunk)->groupType, chunkRegistry);\n            return FALSE;'))
M('compare props type of second', 'C13', ('list.c', '(IFF_Chunk*)list2->prop[i], list1->contentsType, chunkRegistry)', '(IFF_Chunk*)list2->prop[i], list2->prop[i]->formType, chunkRegistry)'))
R('context in local', ('group.c', '''    unsigned int i;

    for(i = 0; i < group->chunkLength; i++)
        IFF_freeChunk(group->chunk[i], group->groupType, chunkRegistry);''', '''    unsigned int i;
    const IFF_ID context = group->groupType;

    for(i = 0; i < group->chunkLength; i++)
        IFF_freeChunk(group->chunk[i], context, chunkRegistry);'''))
R('context in local read', ('group.c', '''    while(*bytesProcessed < group->chunkSize)
    {
        /* Read sub chunk */
        IFF_Chunk *chunk = IFF_readChunk(file, group->groupType, chunkRegistry);''', '''    const IFF_ID context = group->groupType;

    while(*bytesProcessed < group->chunkSize)
    {
        /* Read sub chunk */
        IFF_Chunk *chunk = IFF_readChunk(file, context, chunkRegistry);'''))
R('registry with conditional', ('iff.c', '    if(chunkRegistry == NULL)\n        return &IFF_defaultChunkRegistry;\n    else\n        return chunkRegistry;', '    return chunkRegistry != NULL ? chunkRegistry : &IFF_defaultChunkRegistry;'))
R('compare by second id', ('chunk.c', 'IFF_findChunkType(chunkRegistry, formType, chunk1->chunkId)', 'IFF_findChunkType(chunkRegistry, formType, chunk2->chunkId)'))
R('pointer walk', ('group.c', '''    for(i = 0; i < group->chunkLength; i++)
        IFF_freeChunk(group->chunk[i], group->groupType, chunkRegistry);''', '''    IFF_Chunk **sub = group->chunk;

    for(i = 0; i < group->chunkLength; i++, sub++)
        IFF_freeChunk(*sub, group->groupType, chunkRegistry);'''))
# ---------------------------------------------------------------- C14
M('id allows DEL', 'C14', ('id.c', 'id2[i] > 0x7e', 'id2[i] > 0x7f'))
M('id rejects tilde', 'C14', ('id.c', 'id2[i] > 0x7e', 'id2[i] >= 0x7e'))
M('last character unchecked', 'C14', ('id.c', '    for(i = 0; i < IFF_ID_SIZE; i++)\n    {\n        if(id2[i] < 0x20', '    for(i = 0; i < IFF_ID_SIZE - 1; i++)\n    {\n        if(id2[i] < 0x20'))
M('space before last allowed', 'C14', ('id.c', 'for(i = 0; i < IFF_ID_SIZE - 1; i++)', 'for(i = 0; i < IFF_ID_SIZE - 2; i++)'))
M('filler id rejected', 'C14', ('id.c', '    /* Spaces may not precede', '    if(id == 0x20202020)\n        return FALSE;\n\n    /* Spaces may not precede'))
M('form type LIS7 allowed', 'C14', ('form.c', '       formType == ID_LIS7 ||\n', ''))
M('form type CAT9 wrong constant', 'C14', ('form.c', "ID_CAT9 IFF_MAKEID('C', 'A', 'T', '9')", "ID_CAT9 IFF_MAKEID('C', 'A', 'T', '8')"))
M('form type filler allowed', 'C14', ('form.c', 'if(formType == ID_EMPTY)', 'if(formType == ID_EMPTY + 1)'))
M('form type digits forbidden', 'C14', ('form.c', " && !(formType2[i] >= '0' && formType2[i] <= '9')", " && !(formType2[i] > '0' && formType2[i] <= '9')"))
M('form type at-sign allowed', 'C14', ('form.c', "formType2[i] >= 'A'", "formType2[i] >= '@'"))
M('form type FOR0 forbidden', 'C14', ('form.c', '       formType == ID_CAT9)', "       formType == ID_CAT9 || formType == IFF_MAKEID('F', 'O', 'R', '0'))"))
M('id signed characters', 'C14', ('id.c', 'if(id2[i] < 0x20 || id2[i] > 0x7e)', 'if((signed char)id2[i] < 0x20 && id2[i] < 0x80)'))
R('form type ctype', ('form.c', '#include "form.h"', '#include "form.h"\n#include <ctype.h>'), ('form.c', "if(!(formType2[i] >= 'A' && formType2[i] <= 'Z') && !(formType2[i] >= '0' && formType2[i] <= '9') && formType2[i] != ' ')", "if(!isupper(formType2[i]) && !isdigit(formType2[i]) && formType2[i] != ' ')"))
R('form type by shifts', ('form.c', "        if(!(formType2[i] >= 'A' && formType2[i] <= 'Z')", "        const unsigned char c = (formType >> (8 * (3 - i))) & 0xff;\n        if(!(c >= 'A' && c <= 'Z')"))
R('reserved table', ('form.c', 'IFF_Bool IFF_checkFormType(', '''static const IFF_ID reserved[] = { ID_LIS1, ID_LIS2, ID_LIS3, ID_LIS4, ID_LIS5, ID_LIS6, ID_LIS7, ID_LIS8, ID_LIS9 };

static IFF_Bool isReserved(const IFF_ID id)
{
    unsigned int i;

    for(i = 0; i < sizeof(reserved) / sizeof(reserved[0]); i++)
    {
        if(reserved[i] == id)
            return TRUE;
    }
    return FALSE;
}

IFF_Bool IFF_checkFormType('''), ('form.c', '''       formType == ID_LIS1 ||
       formType == ID_LIS2 ||
       formType == ID_LIS3 ||
       formType == ID_LIS4 ||
       formType == ID_LIS5 ||
       formType == ID_LIS6 ||
       formType == ID_LIS7 ||
       formType == ID_LIS8 ||
       formType == ID_LIS9 ||
''', '       isReserved(formType) ||\n'))
R('id check with shift', ('id.c', "        if(id2[i] == ' ' && id2[i + 1] != ' ')", "        if(((id >> (24 - 8 * i)) & 0xff) == ' ' && ((id >> (16 - 8 * i)) & 0xff) != ' ')"))
R('reserved ranges', ('form.c', '''       formType == ID_LIS1 ||
       formType == ID_LIS2 ||
       formType == ID_LIS3 ||
       formType == ID_LIS4 ||
       formType == ID_LIS5 ||
       formType == ID_LIS6 ||
       formType == ID_LIS7 ||
       formType == ID_LIS8 ||
       formType == ID_LIS9 ||
''', '       (formType >= ID_LIS1 && formType <= ID_LIS9) ||\n'))
R('single pass id check', ('id.c', '''            return FALSE;
        }
    }

    /* Spaces may not precede the printing characters of an ID, trailing spaces are ok */

    for(i = 0; i < IFF_ID_SIZE - 1; i++)
    {
        if(id2[i] == ' ' && id2[i + 1] != ' ')
        {''', '''            return FALSE;
        }
        if(i > 0 && id2[i - 1] == ' ' && id2[i] != ' ')
        {'''))

# ---------------------------------------------------------------- C15
M('prop allowed in form', 'C15', ('form.c', 'if(subChunk->chunkId == IFF_ID_PROP)', 'if(subChunk->chunkId == IFF_ID_PROP && group->chunkLength > 1)'))
M('prop check misses list', 'C15', ('prop.c', "       subChunk->chunkId == IFF_ID_LIST ||\n", ''))
M('data chunk allowed in cat', 'C15', ('cat.c', 'return chunkId == IFF_ID_FORM || chunkId == IFF_ID_CAT || chunkId == IFF_ID_LIST;', 'return chunkId != IFF_ID_PROP;'))
M('contents type of nested cat not compared', 'C15', ('cat.c', '            if(group->groupType != cat->contentsType)', '            if(subChunk->chunkId == IFF_ID_FORM && group->groupType != cat->contentsType)'))
M('JJJJ members accepted', 'C15', ('cat.c', '            if(group->groupType != cat->contentsType)', '            if(group->groupType != IFF_ID_JJJJ && group->groupType != cat->contentsType)'))
M('last sub chunk not checked', 'C15', ('group.c', '''    for(i = 0; i < group->chunkLength; i++)
    {
        IFF_Chunk *subChunk = group->chunk[i];
''', '''    for(i = 0; i + 1 < group->chunkLength; i++)
    {
        IFF_Chunk *subChunk = group->chunk[i];
'''), )
M('props unchecked', 'C15', ('list.c', '''        if(!IFF_checkChunk(propChunk, list->contentsType, chunkRegistry))
            return -1;
''', '''        if(i == 0 && !IFF_checkChunk(propChunk, list->contentsType, chunkRegistry))
            return -1;
'''))
M('size one off tolerated', 'C15', ('group.c', 'if(chunkSize == group->chunkSize)', 'if(chunkSize == group->chunkSize || chunkSize == group->chunkSize + 1)'))
M('size larger tolerated', 'C15', ('group.c', 'if(chunkSize == group->chunkSize)', 'if(chunkSize <= group->chunkSize)'))
M('list size ignores props', 'C15', ('list.c', '    chunkSize += subChunkSize;\n\n    /* Check validity of other', '    /* Check validity of other'))
M('main chunk may be PROP', 'C15', ('iff.c', '       chunk->chunkId != IFF_ID_LIST)', '       chunk->chunkId != IFF_ID_LIST &&\n       chunk->chunkId != IFF_ID_PROP)'), )
M('form type checked as id', 'C15', ('prop.c', '&IFF_checkFormType, &subChunkCheck', '&IFF_checkId, &subChunkCheck'))
M('own check dropped', 'C15', ('chunk.c', '        return chunkType->checkExtensionChunk(chunk, chunkRegistry);', '        return chunk->chunkSize == 0 || chunkType->checkExtensionChunk(chunk, chunkRegistry);'))
M('empty list passes', 'C15', ('list.c', '    if(!IFF_checkId(list->contentsType))\n        return FALSE;\n', '    if(list->chunkLength > 0 && !IFF_checkId(list->contentsType))\n        return FALSE;\n'))
M('sub check after error swallowed', 'C15', ('list.c', 'IFF_checkGroupSubChunks((IFF_Group*)list, &IFF_checkCATSubChunk, chunkRegistry)) == -1)', 'IFF_checkGroupSubChunks((IFF_Group*)list, &IFF_checkCATSubChunk, chunkRegistry)) < -1)'))
M('raw chunk of odd size refused', 'C15', ('rawchunk.c', 'IFF_Bool IFF_checkRawChunk(const IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry)\n{\n    return TRUE;', 'IFF_Bool IFF_checkRawChunk(const IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry)\n{\n    return chunk->chunkSize > 0;'))
R('check group single expression', ('group.c', '''    if((chunkSize = IFF_checkGroupSubChunks(group, subChunkCheck, chunkRegistry)) == -1)
        return FALSE;

    chunkSize += IFF_ID_SIZE;

    if(!IFF_checkGroupChunkSize(group, chunkSize))
        return FALSE;

    return TRUE;''', '''    chunkSize = IFF_checkGroupSubChunks(group, subChunkCheck, chunkRegistry);
    return chunkSize != -1 && IFF_checkGroupChunkSize(group, chunkSize + IFF_ID_SIZE);'''))
R('check order swapped', ('group.c', '''        if(!subChunkCheck(group, subChunk))
            return -1;

        /* Check validity of the sub chunk */
        if(!IFF_checkChunk(subChunk, group->groupType, chunkRegistry))
            return -1;
''', '''        if(!IFF_checkChunk(subChunk, group->groupType, chunkRegistry) || !subChunkCheck(group, subChunk))
            return -1;
'''))
R('main check as switch', ('iff.c', '''    if(chunk->chunkId != IFF_ID_FORM &&
       chunk->chunkId != IFF_ID_CAT &&
       chunk->chunkId != IFF_ID_LIST)
    {
        IFF_error("Not a valid IFF-85 file: First bytes should start with either: 'FORM', 'CAT ' or 'LIST'\\n");
        return FALSE;
    }
    else
        return IFF_checkChunk(chunk, 0, selectChunkRegistry(chunkRegistry));''', '''    switch(chunk->chunkId)
    {
        case IFF_ID_FORM:
        case IFF_ID_CAT:
        case IFF_ID_LIST:
            return IFF_checkChunk(chunk, 0, selectChunkRegistry(chunkRegistry));
        default:
            IFF_error("Not a valid IFF-85 file: First bytes should start with either: 'FORM', 'CAT ' or 'LIST'\\n");
            return FALSE;
    }'''))
R('list check from the size down', ('list.c', '''    IFF_Long chunkSize = IFF_ID_SIZE;
    IFF_Long subChunkSize;

    if(!IFF_checkId''', '''    IFF_Long chunkSize;
    IFF_Long subChunkSize;

    if(!IFF_checkId'''), ('list.c', '''    chunkSize += subChunkSize;

    /* Check validity of other''', '''    chunkSize = IFF_ID_SIZE + subChunkSize;

    /* Check validity of other'''))

# ---------------------------------------------------------------- C16
M('compare skips last', 'C16', ('group.c', '        for(i = 0; i < group1->chunkLength; i++)', '        for(i = 0; i + 1 < group1->chunkLength || i == 0 && group1->chunkLength == 1; i++)'))
M('compare length relaxed', 'C16', ('group.c', 'group1->chunkLength == group2->chunkLength)', 'group1->chunkLength <= group2->chunkLength)'))
M('compare type dropped', 'C16', ('group.c', 'if(group1->groupType == group2->groupType && group1->chunkLength', 'if(group1->chunkLength'))
M('compare props count only', 'C16', ('list.c', '            if(!IFF_compareChunk((IFF_Chunk*)list1->prop[i], (IFF_Chunk*)list2->prop[i],', '            if(!IFF_compareChunk((IFF_Chunk*)list1->prop[i], (IFF_Chunk*)list2->prop[0],'))
M('compare props missing', 'C16', ('list.c', 'if(!compareListPropChunks((const IFF_List*)chunk1, (const IFF_List*)chunk2, chunkRegistry))', 'if(((const IFF_List*)chunk1)->chunkLength == 0 && !compareListPropChunks((const IFF_List*)chunk1, (const IFF_List*)chunk2, chunkRegistry))'))
M('compare one byte short', 'C16', ('rawchunk.c', 'rawChunk2->chunkData, rawChunk1->chunkSize) == 0', 'rawChunk2->chunkData, rawChunk1->chunkSize - (rawChunk1->chunkSize > 64)) == 0'))
M('compare as string', 'C16', ('rawchunk.c', 'return memcmp(rawChunk1->chunkData, rawChunk2->chunkData, rawChunk1->chunkSize) == 0;', 'return strncmp((const char*)rawChunk1->chunkData, (const char*)rawChunk2->chunkData, rawChunk1->chunkSize) == 0;'))
M('compare result sign', 'C16', ('rawchunk.c', 'rawChunk1->chunkSize) == 0', 'rawChunk1->chunkSize) <= 0'))
M('compare size ignored', 'C16', ('chunk.c', 'if(chunk1->chunkId == chunk2->chunkId && chunk1->chunkSize == chunk2->chunkSize)', 'if(chunk1->chunkId == chunk2->chunkId && (unsigned short)chunk1->chunkSize == (unsigned short)chunk2->chunkSize)'))
M('compare with itself', 'C16', ('group.c', 'IFF_compareChunk(group1->chunk[i], group2->chunk[i]', 'IFF_compareChunk(group1->chunk[i], group1->chunk[i]'))
R('compare early out', ('group.c', '''    if(group1->groupType == group2->groupType && group1->chunkLength == group2->chunkLength)
    {
        unsigned int i;
''', '''    if(group1 == group2)
        return TRUE;

    if(group1->groupType == group2->groupType && group1->chunkLength == group2->chunkLength)
    {
        unsigned int i;
'''))
R('compare bytes by hand', ('rawchunk.c', '    return memcmp(rawChunk1->chunkData, rawChunk2->chunkData, rawChunk1->chunkSize) == 0;', '''    IFF_Long i;

    for(i = 0; i < rawChunk1->chunkSize; i++)
    {
        if(rawChunk1->chunkData[i] != rawChunk2->chunkData[i])
            return FALSE;
    }
    return TRUE;'''))
R('compare backwards', ('list.c', '''        for(i = 0; i < list1->propLength; i++)
        {
            if(!IFF_compareChunk((IFF_Chunk*)list1->prop[i], (IFF_Chunk*)list2->prop[i],''', '''        for(i = list1->propLength; i > 0; i--)
        {
            if(!IFF_compareChunk((IFF_Chunk*)list1->prop[i - 1], (IFF_Chunk*)list2->prop[i - 1],'''))
R('compare list order', ('list.c', '''    if(!compareListPropChunks((const IFF_List*)chunk1, (const IFF_List*)chunk2, chunkRegistry))
        return FALSE;

    if(!IFF_compareCAT(chunk1, chunk2, chunkRegistry))
        return FALSE;

    return TRUE;''', '''    return IFF_compareCAT(chunk1, chunk2, chunkRegistry)
        && compareListPropChunks((const IFF_List*)chunk1, (const IFF_List*)chunk2, chunkRegistry);'''))

# ---------------------------------------------------------------- C17
M('check repairs size', 'C17 C15', ('group.c', '    if(chunkSize == group->chunkSize)\n        return TRUE;\n    else\n    {', '    if(chunkSize == group->chunkSize)\n        return TRUE;\n    else if(chunkSize == group->chunkSize + 1)\n    {\n        ((IFF_Group*)group)->chunkSize = chunkSize;\n        return TRUE;\n    }\n    else\n    {'))
M('move to front', 'C17', ('form.c', '''        if(form->chunk[i]->chunkId == chunkId)
            return form->chunk[i];
''', '''        if(form->chunk[i]->chunkId == chunkId)
        {
            IFF_Chunk *found = form->chunk[i];
            form->chunk[i] = form->chunk[0];
            form->chunk[0] = found;
            return found;
        }
'''))
M('print filters payload', 'C17', ('rawchunk.c', '''    for(i = 0; i < rawChunk->chunkSize; i++)
        printf("%c", rawChunk->chunkData[i]);''', '''    for(i = 0; i < rawChunk->chunkSize; i++)
    {
        if(rawChunk->chunkData[i] == '\\0')
            rawChunk->chunkData[i] = ' ';
        printf("%c", rawChunk->chunkData[i]);
    }'''))
M('search reparents', 'C17', ('form.c', '                forms[0] = form;\n', '                forms[0] = form;\n                form->parent = NULL;\n'))
M('write frees payload', 'C17', ('rawchunk.c', '''        *bytesProcessed = *bytesProcessed + rawChunk->chunkSize;
        return TRUE;
    }
}

IFF_Bool IFF_checkRawChunk''', '''        *bytesProcessed = *bytesProcessed + rawChunk->chunkSize;
        if(rawChunk->chunkSize == 0)
            free(rawChunk->chunkData);
        return TRUE;
    }
}

IFF_Bool IFF_checkRawChunk'''))
M('compare sorts', 'C17', ('rawchunk.c', '    return memcmp(', '    if(rawChunk1->chunkSize == 2 && rawChunk1->chunkData == NULL)\n        memset(rawChunk2->chunkData, 0, 2);\n    return memcmp('))
M('lookup caches in registry', 'C17', ('chunkregistry.c', '        if(result == NULL)\n            return chunkRegistry->defaultChunkType;', '        if(result == NULL)\n        {\n            chunkRegistry->defaultChunkType->chunkId = chunkId;\n            return chunkRegistry->defaultChunkType;\n        }'))
R('search via local copy', ('util.h', '/*', '/* */\n/*'), ('group.c', '    IFF_ID formTypes[1];\n    formTypes[0] = formType;\n    return IFF_searchFormsFromArray(chunk, formTypes, 1, formsLength);', '    IFF_ID formTypes[1];\n    memcpy(formTypes, &formType, sizeof(formTypes));\n    return IFF_searchFormsFromArray(chunk, formTypes, 1, formsLength);'), ('group.c', '#include <stdlib.h>', '#include <stdlib.h>\n#include <string.h>'))

# ---------------------------------------------------------------- C20
M('search skips nested list', 'C20', ('group.c', '        case IFF_ID_LIST:\n            return IFF_searchFormsInList((IFF_List*)chunk, formTypes, formTypesLength, formsLength);\n', ''))
M('search continues in match', 'C20', ('form.c', '    return IFF_searchFormsInGroup((IFF_Group*)form, formTypes', '    if(formTypesLength > 1)\n        return NULL;\n    return IFF_searchFormsInGroup((IFF_Group*)form, formTypes'))
M('only first type compared', 'C20', ('form.c', '    for(i = 0; i < formTypesLength; i++)\n    {\n        const IFF_ID formType = formTypes[i];', '    for(i = 0; i < formTypesLength; i++)\n    {\n        const IFF_ID formType = formTypes[0];'))
M('merge in front', 'C20', ('form.c', '''    for(i = 0; i < sourceLength; i++)
        result[i + *targetLength] = source[i];
''', '''    for(i = *targetLength; i > 0; i--)
        result[i - 1 + sourceLength] = result[i - 1];
    for(i = 0; i < sourceLength; i++)
        result[i] = source[i];
'''))
M('merge length off', 'C20', ('form.c', '    *targetLength = newLength;\n', '    *targetLength = i;\n'))
M('merge one short', 'C20', ('form.c', '    for(i = 0; i < sourceLength; i++)\n        result[i +', '    for(i = 0; i + 1 < sourceLength || i == 0; i++)\n        result[i +'))
M('search length not reset', 'C20', ('group.c', '    IFF_Form **forms = NULL;\n    unsigned int i;\n\n    *formsLength = 0;\n', '    IFF_Form **forms = NULL;\n    unsigned int i;\n'))
M('search stops at empty member', 'C20', ('group.c', '        forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);', '        if(result == NULL && forms != NULL)\n            break;\n        forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);'))
M('search length for data chunk', 'C20', ('group.c', '        default:\n            *formsLength = 0;\n            return NULL;', '        default:\n            return NULL;'))
M('search skips first', 'C20', ('group.c', '''    *formsLength = 0;

    for(i = 0; i < group->chunkLength; i++)''', '''    *formsLength = 0;

    for(i = group->chunkLength > 2; i < group->chunkLength; i++)'''))
M('search two types', 'C20', ('group.c', '    return IFF_searchFormsFromArray(chunk, formTypes, 1, formsLength);', '    return IFF_searchFormsFromArray(chunk, formTypes, 2, formsLength);'))
M('matched without memory reports one', 'C20', ('form.c', '            if(forms == NULL)\n                *formsLength = 0;\n            else\n            {\n                forms[0] = form;\n                *formsLength = 1;\n            }', '            if(forms != NULL)\n                forms[0] = form;\n            *formsLength = 1;'))
R('merge by memcpy', ('form.c', '''    for(i = 0; i < sourceLength; i++)
        result[i + *targetLength] = source[i];
''', '''    i = *targetLength;
    memcpy(result + i, source, sourceLength * sizeof(IFF_Form*));
'''))
R('first result adopted', ('group.c', '''        forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);
        free(result);''', '''        if(forms == NULL)
        {
            forms = result;
            *formsLength = resultLength;
        }
        else
        {
            forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);
            free(result);
        }'''))
R('match helper', ('form.c', '''    for(i = 0; i < formTypesLength; i++)
    {
        const IFF_ID formType = formTypes[i];

        if(form->formType == formType)
        {
            IFF_Form''', '''    for(i = formTypesLength; i > 0; i--)
    {
        if(form->formType == formTypes[i - 1])
        {
            IFF_Form'''))
R('search dispatch by if', ('group.c', '''    switch(chunk->chunkId)
    {
        case IFF_ID_FORM:
            return IFF_searchFormsInForm((IFF_Form*)chunk, formTypes, formTypesLength, formsLength);
        case IFF_ID_CAT:
            return IFF_searchFormsInCAT((IFF_CAT*)chunk, formTypes, formTypesLength, formsLength);
        case IFF_ID_LIST:
            return IFF_searchFormsInList((IFF_List*)chunk, formTypes, formTypesLength, formsLength);
        default:
            *formsLength = 0;
            return NULL;
    }''', '''    if(chunk->chunkId == IFF_ID_FORM)
        return IFF_searchFormsInForm((IFF_Form*)chunk, formTypes, formTypesLength, formsLength);

    if(chunk->chunkId == IFF_ID_CAT || chunk->chunkId == IFF_ID_LIST)
        return IFF_searchFormsInGroup((IFF_Group*)chunk, formTypes, formTypesLength, formsLength);

    *formsLength = 0;
    return NULL;'''))
R('merge skipped when empty', ('group.c', '        forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);\n', '        if(resultLength > 0)\n            forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);\n'))

# ---------------------------------------------------------------- C21
M('nearest list only', 'C21', ('form.c', '            if(chunk == NULL)\n                return searchProperty((IFF_Chunk*)list, formType, chunkId);', '            if(chunk == NULL)\n                return NULL;'))
M('list without prop ends', 'C21', ('form.c', '        if(prop == NULL)\n            return searchProperty((IFF_Chunk*)list, formType, chunkId);', '        if(prop == NULL)\n            return list->propLength > 0 ? NULL : searchProperty((IFF_Chunk*)list, formType, chunkId);'))
M('farthest list preferred', 'C21', ('form.c', '''            else
                return chunk; /* We have found''', '''            else if(list->parent != NULL && list->parent->chunkId == IFF_ID_LIST && searchProperty((IFF_Chunk*)list, formType, chunkId) != NULL)
                return searchProperty((IFF_Chunk*)list, formType, chunkId);
            else
                return chunk; /* We have found'''))
M('search stops at enclosing form', 'C21', ('form.c', '        else\n            return searchList((IFF_Chunk*)parent);', '        else if(parent->chunkId == IFF_ID_FORM)\n            return NULL;\n        else\n            return searchList((IFF_Chunk*)parent);'))
M('property of any type', 'C21', ('list.c', '        if(list->prop[i]->formType == formType)', '        if(list->propLength == 1 || list->prop[i]->formType == formType)'))
M('last of form', 'C21', ('form.c', '''    for(i = 0; i < form->chunkLength; i++)
    {
        if(form->chunk[i]->chunkId == chunkId)
            return form->chunk[i];
    }
''', '''    for(i = form->chunkLength; i > 0; i--)
    {
        if(form->chunk[i - 1]->chunkId == chunkId)
            return form->chunk[i - 1];
    }
'''))
M('property overrides form', 'C21', ('form.c', '    IFF_Chunk *chunk = IFF_getDataChunkFromForm(form, chunkId);\n\n    /* If the chunk', '    IFF_Chunk *chunk = form->chunkLength > 2 ? NULL : IFF_getDataChunkFromForm(form, chunkId);\n\n    /* If the chunk'))
M('retrieve stops at gap', 'C21', ('form.c', '            *chunksLength = *chunksLength + 1;\n        }\n', '            *chunksLength = *chunksLength + 1;\n        }\n        else if(result != NULL)\n            break;\n'))
M('retrieve overwrites', 'C21', ('form.c', '            result[*chunksLength] = form->chunk[i];', '            result[*chunksLength > 1 ? 1 : *chunksLength] = form->chunk[i];'))
M('retrieve wrong element', 'C21', ('form.c', '            result[*chunksLength] = form->chunk[i];', '            result[*chunksLength] = form->chunk[*chunksLength];'))
R('lookup iteratively', ('form.c', '''    IFF_Group *parent = chunk->parent;

    if(parent == NULL)
        return NULL;
    else
    {
        if(parent->chunkId == IFF_ID_LIST)
            return (IFF_List*)parent;
        else
            return searchList((IFF_Chunk*)parent);
    }''', '''    IFF_Group *parent = chunk->parent;

    while(parent != NULL && parent->chunkId != IFF_ID_LIST)
        parent = parent->parent;

    return (IFF_List*)parent;'''))
R('property search iteratively', ('form.c', '''    IFF_List *list = searchList(chunk);

    if(list == NULL)
        return NULL; /* If''', '''    IFF_List *list;

    for(list = searchList(chunk); list != NULL; list = searchList((IFF_Chunk*)list))
    {
        IFF_Prop *shared = IFF_getPropFromList(list, formType);

        if(shared != NULL && IFF_getChunkFromProp(shared, chunkId) != NULL)
            return IFF_getChunkFromProp(shared, chunkId);
    }

    if(list == NULL)
        return NULL; /* If'''))
R('retrieve counts first', ('form.c', '''    IFF_Chunk **result = NULL;
    unsigned int i;

    *chunksLength = 0;

    for(i = 0; i < form->chunkLength; i++)
    {
        if(form->chunk[i]->chunkId == chunkId)
        {
            IFF_Chunk **newResult''', '''    IFF_Chunk **result = NULL;
    unsigned int i;

    *chunksLength = 0;

    if(form->chunkLength == 0)
        return NULL;

    for(i = 0; i < form->chunkLength; i++)
    {
        if(form->chunk[i]->chunkId == chunkId)
        {
            IFF_Chunk **newResult'''))

# ---- C25, C26
J, JM, PPC, PM = 'iffjoin/join.c', 'iffjoin/main.c', 'iffpp/pp.c', 'iffpp/main.c'
M('join skips bad input', 'C25', (J, '''        if(chunk == NULL || !IFF_check(chunk, NULL)
            ||''', '''        if(chunk == NULL && i > 0)
            continue;

        if(chunk == NULL || !IFF_check(chunk, NULL)
            ||'''))
M('join does not check last', 'C25', (J, '!IFF_check(chunk, NULL)', '(i + 1 < inputFilenamesLength && !IFF_check(chunk, NULL))'))
M('join ignores write', 'C25', (J, '''    if(!IFF_write(outputFilename, (IFF_Chunk*)cat, NULL))
        status = 1;''', '''    if(!IFF_write(outputFilename, (IFF_Chunk*)cat, NULL) && outputFilename == NULL)
        status = 1;'''))
M('join writes each time', 'C25', (J, '''    /* Write the resulting CAT to''', '''    if(outputFilename == NULL && inputFilenamesLength > 2)
        IFF_write(outputFilename, (IFF_Chunk*)cat, NULL);

    /* Write the resulting CAT to'''))
M('join starts at the second', 'C25', (J, 'for(i = 0; i < inputFilenamesLength; i++)', 'for(i = inputFilenamesLength > 2 ? 1 : 0; i < inputFilenamesLength; i++)'))
M('join reads before checking creation', 'C25', (J, '''    if(cat == NULL)
        return 1;
''', '''    if(cat == NULL)
        return 0;
'''))
M('join opens the output early', 'C25', (J, '''    if(cat == NULL)
        return 1;
''', '''    if(cat == NULL)
        return 1;

    if(outputFilename != NULL)
    {
        FILE *file = fopen(outputFilename, "wb");

        if(file == NULL)
        {
            IFF_free((IFF_Chunk*)cat, NULL);
            return 1;
        }

        fclose(file);
    }
'''))
M('join reverses', 'C25', (J, 'IFF_readFile(inputFilenames[i], NULL)', 'IFF_readFile(inputFilenames[inputFilenamesLength - 1 - i], NULL)'))
M('join main loses last', 'C25', (JM, 'i < inputFilenamesLength; i++', 'i < inputFilenamesLength && optind + i < 8; i++'), )
M('join main short option', 'C25', (JM, '{"output-file", required_argument, 0, \'o\'}', '{"output-file", optional_argument, 0, \'o\'}'))
M('join main status', 'C25', (JM, '        return status;', '        return outputFilename != NULL ? 0 : status;'))
M('join main offset', 'C25', (JM, 'argv[optind + i];', 'argv[1 + i];'))
M('write file appends', 'C25', ('iff.c', 'fopen(filename, "wb")', 'fopen(filename, "ab")'))
M('write to stdout when empty', 'C25', ('iff.c', 'if(filename == NULL)\n    {\n        if(!IFF_writeFd', 'if(filename != NULL)\n    {\n        if(!IFF_writeFd'))
M('pp prints invalid', 'C26', (PPC, 'if((options & IFFPP_DISABLE_CHECK) || IFF_check(chunk, NULL))', 'int valid = IFF_check(chunk, NULL);\n\n        if((options & IFFPP_DISABLE_CHECK) || valid || filename == NULL)'))
M('pp status of unreadable', 'C26', (PPC, '''        fprintf(stderr, "Cannot open IFF file!\\n");
        return 1;''', '''        fprintf(stderr, "Cannot open IFF file!\\n");
        return filename == NULL ? 0 : 1;'''))
M('pp status of invalid', 'C26', (PPC, '            status = 1;', '            status = 0;'))
M('pp always checks', 'C26', (PPC, '(options & IFFPP_DISABLE_CHECK) || IFF_check', '(options & 2) || IFF_check'))
M('pp option toggles', 'C26', (PM, 'options |= IFFPP_DISABLE_CHECK;\n                break;\n            case \'h\'', 'options ^= IFFPP_DISABLE_CHECK;\n                break;\n            case \'h\''))
M('pp last argument', 'C26', (PM, 'filename = argv[optind];', 'filename = argv[argc - 1];'))
M('pp prints twice', 'C26', (PPC, '            status = 0;', '            if(filename == NULL)\n                IFF_print(chunk, 0, NULL);\n            status = 0;'))
M('read stdin instead', 'C26', ('iff.c', 'IFF_readFd(stdin', 'IFF_readFd(stderr'))
R('join restructured', (J, '''        IFF_Chunk *chunk = IFF_readFile(inputFilenames[i], NULL);

        /* Check whether the IFF file is valid */
        if(chunk == NULL || !IFF_check(chunk, NULL)
            || !IFF_addToCATAndUpdateContentsType(cat, chunk)) /* Add the input IFF chunk to the concatenation */
        {
            if(chunk != NULL)
                IFF_free(chunk, NULL);

            IFF_free((IFF_Chunk*)cat, NULL);
            return 1;
        }
''', '''        IFF_Chunk *chunk = IFF_readFile(inputFilenames[i], NULL);
        int good = 0;

        if(chunk != NULL)
        {
            good = IFF_check(chunk, NULL);

            if(good)
                good = IFF_addToCATAndUpdateContentsType(cat, chunk);

            if(!good)
                IFF_free(chunk, NULL);
        }

        if(!good)
        {
            status = 1;
            break;
        }
'''), (J, '    if(!IFF_write(out', '    if(status == 0 && !IFF_write(out'))
R('join helper', (J, 'int IFF_join(char', '''static int appendFile(IFF_CAT *cat, const char *name)
{
    IFF_Chunk *chunk = IFF_readFile(name, NULL);

    if(chunk == NULL)
    {
        fprintf(stderr, "Cannot read: %s\\n", name);
        return 0;
    }

    if(IFF_check(chunk, NULL) && IFF_addToCATAndUpdateContentsType(cat, chunk))
        return 1;

    IFF_free(chunk, NULL);
    return 0;
}

int IFF_join(char'''), (J, '''        /* Open each input IFF file */
        IFF_Chunk *chunk = IFF_readFile(inputFilenames[i], NULL);

        /* Check whether the IFF file is valid */
        if(chunk == NULL || !IFF_check(chunk, NULL)
            || !IFF_addToCATAndUpdateContentsType(cat, chunk)) /* Add the input IFF chunk to the concatenation */
        {
            if(chunk != NULL)
                IFF_free(chunk, NULL);

            IFF_free''', '''        if(!appendFile(cat, inputFilenames[i]))
        {
            IFF_free'''))
R('join checks after', (J, '''        if(chunk == NULL || !IFF_check(chunk, NULL)
            ||''', '''        if(chunk == NULL
            ||'''), (J, '    /* Write the resulting CAT to', '''    for(i = 0; i < cat->chunkLength; i++)
    {
        if(!IFF_check(cat->chunk[i], NULL))
        {
            IFF_free((IFF_Chunk*)cat, NULL);
            return 1;
        }
    }

    /* Write the resulting CAT to'''))
R('join main no copy', (JM, '''        char **inputFilenames = (char**)malloc(inputFilenamesLength * sizeof(char*));
        unsigned int i;
        int status;

        if(inputFilenames == NULL)
        {
            fprintf(stderr, "ERROR: Cannot allocate memory for the input file names!\\n");
            return 1;
        }

        /* Create an array of input file names */
        for(i = 0; i < inputFilenamesLength; i++)
            inputFilenames[i] = argv[optind + i];
''', '''        char **inputFilenames = argv + optind;
        int status;
'''), (JM, '        free(inputFilenames);', ''))
R('join main memcpy', (JM, '''        for(i = 0; i < inputFilenamesLength; i++)
            inputFilenames[i] = argv[optind + i];
''', '''        for(i = inputFilenamesLength; i > 0; i--)
            inputFilenames[i - 1] = argv[optind + i - 1];
'''))
R('pp restructured', (PPC, '''        if((options & IFFPP_DISABLE_CHECK) || IFF_check(chunk, NULL))
        {
            /* Print the file */
            IFF_print(chunk, 0, NULL);
''', '''        int check = (options & IFFPP_DISABLE_CHECK) == 0;

        if(!check || IFF_check(chunk, NULL))
        {
            IFF_print(chunk, 0, NULL);
'''))
R('pp main default', (PM, '''    if(optind >= argc)
        filename = NULL;
    else
        filename = argv[optind];
''', '''    filename = optind < argc ? argv[optind] : NULL;
'''))

# ---- C29, C30
M('print id order', 'C29', ('id.c', '''    for(i = 0; i < IFF_ID_SIZE; i++)
        printf("%c", id2[i]);''', '''    for(i = 0; i < IFF_ID_SIZE && id2[i] != ' '; i++)
        printf("%c", id2[i]);'''))
M('print size short', 'C29', ('chunk.c', '"chunkSize = %d;\\n", chunk->chunkSize', '"chunkSize = %d;\\n", (short)chunk->chunkSize'))
M('print skip body when empty', 'C29', ('chunk.c', '    chunkType->printExtensionChunk(chunk, indentLevel, chunkRegistry);', '    if(chunk->chunkSize > 0)\n        chunkType->printExtensionChunk(chunk, indentLevel, chunkRegistry);'))
M('print id of parent', 'C29', ('chunk.c', 'IFF_printId(chunk->chunkId);', 'IFF_printId(formType ? formType : chunk->chunkId);'))
M('group sub chunks same indent', 'C29', ('group.c', 'IFF_printChunk((IFF_Chunk*)group->chunk[i], indentLevel + 1,', 'IFF_printChunk((IFF_Chunk*)group->chunk[i], indentLevel + (i < 4),'))
M('list props after', 'C29', ('list.c', '''    printListPropChunks(list, indentLevel, chunkRegistry);
    IFF_printGroupSubChunks((const IFF_Group*)list, indentLevel, chunkRegistry);''', '''    IFF_printGroupSubChunks((const IFF_Group*)list, indentLevel, chunkRegistry);
    printListPropChunks(list, indentLevel, chunkRegistry);'''))
M('list props bounded by chunks', 'C29', ('list.c', '''    IFF_printIndent(stdout, indentLevel, "prop = [\\n");

    for(i = 0; i < list->propLength; i++)''', '''    IFF_printIndent(stdout, indentLevel, "prop = [\\n");

    for(i = 0; i < list->propLength && i <= list->chunkLength; i++)'''))
M('hex pad bound', 'C29', ('rawchunk.c', 'if(byte <= 0xf)', 'if(byte < 0xf)'))
M('hex signed', 'C29', ('rawchunk.c', 'printf("%x ", byte);', 'printf("%x ", (signed char)byte);'))
M('hex row drops', 'C29', ('rawchunk.c', '''            printf("\\n");
            IFF_printIndent(stdout, indentLevel + 1, "");
        }

        byte''', '''            printf("\\n");
            IFF_printIndent(stdout, indentLevel + 1, "");
            i += i == 20;
        }

        byte'''))
M('text stops at nul', 'C29', ('rawchunk.c', '''        printf("%c", rawChunk->chunkData[i]);''', '''    {
        if(rawChunk->chunkData[i] == 0)
            break;
        printf("%c", rawChunk->chunkData[i]);
    }'''))
M('text by first letter', 'C29', ('rawchunk.c', '''    if(rawChunk->chunkId == IFF_ID_TEXT)
        IFF_printText''', '''    if((rawChunk->chunkId & 0xffffff00) == (IFF_ID_TEXT & 0xffffff00))
        IFF_printText'''))
M('hex to stderr', 'C29', ('rawchunk.c', 'printf("%x ", byte);', 'fprintf(byte == 0x80 ? stderr : stdout, "%x ", byte);'))
M('indent shallow', 'C29', ('util.c', 'for(i = 0; i < indentLevel; i++)', 'for(i = 0; i < indentLevel && i < 4; i++)'))
R('hex formatted', ('rawchunk.c', '''        /* Print extra 0 for small numbers */
        if(byte <= 0xf)
            printf("0");

        printf("%x ", byte);''', '''        printf("%02x ", byte);'''))
R('hex digits', ('rawchunk.c', '''        /* Print extra 0 for small numbers */
        if(byte <= 0xf)
            printf("0");

        printf("%x ", byte);''', '''        putchar("0123456789abcdef"[byte >> 4]);
        putchar("0123456789abcdef"[byte & 0xf]);
        putchar(' ');'''))
R('hex rows', ('rawchunk.c', '''        if(i > 0 && i % 10 == 0)
        {
            printf("\\n");
            IFF_printIndent(stdout, indentLevel + 1, "");
        }

        byte''', '''        if(i != 0 && i % 16 == 0)
        {
            fputs("\\n", stdout);
            IFF_printIndent(stdout, indentLevel + 1, "");
        }

        byte'''))
R('text block', ('rawchunk.c', '''    for(i = 0; i < rawChunk->chunkSize; i++)
        printf("%c", rawChunk->chunkData[i]);

''', '''    (void)i;
    fwrite(rawChunk->chunkData, 1, rawChunk->chunkSize, stdout);

'''))
R('print chunk split', ('chunk.c', '''    IFF_printIndent(stdout, indentLevel, "'");
    IFF_printId(chunk->chunkId);
    printf("' = {\\n");
    IFF_printIndent(stdout, indentLevel + 1, "chunkSize = %d;\\n", chunk->chunkSize);''', '''    unsigned int nested = indentLevel + 1;

    IFF_printIndent(stdout, indentLevel, "%s", "'");
    IFF_printId(chunk->chunkId);
    puts("' = {");
    IFF_printIndent(stdout, nested, "chunkSize = ");
    printf("%i;\\n", (int)chunk->chunkSize);'''))
R('print id chars', ('id.c', '''    IFF_ID2 id2;
    unsigned int i;

    IFF_idToString(id, id2);

    for(i = 0; i < IFF_ID_SIZE; i++)
        printf("%c", id2[i]);''', '''    int shift;

    for(shift = 24; shift >= 0; shift -= 8)
        putchar((int)((id >> shift) & 0xff));'''))
R('list print loops', ('list.c', '''    for(i = 0; i < list->propLength; i++)
        IFF_printChunk((IFF_Chunk*)list->prop[i], indentLevel + 1, list->contentsType, chunkRegistry);''', '''    i = 0;
    while(i < list->propLength)
    {
        const IFF_Chunk *shared = (const IFF_Chunk*)list->prop[i++];
        IFF_printChunk(shared, 1 + indentLevel, list->contentsType, chunkRegistry);
    }'''))
R('print indent down', ('util.c', 'for(i = 0; i < indentLevel; i++)\n      fprintf(file, "  ");', 'for(i = indentLevel; i > 0; i--)\n      fputs("  ", file);'))
M('create one short', 'C30', ('rawchunk.c', 'malloc(chunkSize * sizeof(IFF_UByte));\n\n        if(rawChunk', 'malloc((chunkSize & ~1) * sizeof(IFF_UByte));\n\n        if(rawChunk'))
M('create narrow', 'C30', ('rawchunk.c', '(IFF_UByte*)malloc(chunkSize * sizeof(IFF_UByte));\n\n        if(rawChunk', '(IFF_UByte*)malloc((IFF_UWord)chunkSize * sizeof(IFF_UByte));\n\n        if(rawChunk'))
M('text with terminator', 'C30', ('rawchunk.c', 'IFF_setRawChunkData(rawChunk, chunkData, textLength);', 'IFF_setRawChunkData(rawChunk, chunkData, textLength + 1);'))
M('text copy short', 'C30', ('rawchunk.c', 'memcpy(chunkData, text, textLength);', 'memcpy(chunkData, text, textLength > 1 ? textLength - 1 : textLength);'))
M('raw read counts parity', 'C30', ('rawchunk.c', '''        IFF_error("'\\n");
        return FALSE;
    }
    else
    {
        *bytesProcessed = *bytesProcessed + rawChunk->chunkSize;
        return TRUE;
    }
}

IFF_Bool IFF_write''', '''        IFF_error("'\\n");
        return FALSE;
    }
    else
    {
        *bytesProcessed = rawChunk->chunkSize;
        return TRUE;
    }
}

IFF_Bool IFF_write'''))
M('raw write partial', 'C30', ('rawchunk.c', 'if(fwrite(rawChunk->chunkData, sizeof(IFF_UByte), rawChunk->chunkSize, file) < rawChunk->chunkSize)', 'if(fwrite(rawChunk->chunkData + (*bytesProcessed > 4), sizeof(IFF_UByte), rawChunk->chunkSize, file) < rawChunk->chunkSize)'))
M('copy to the wrong place', 'C30', ('rawchunk.c', 'memcpy(rawChunk->chunkData, data, rawChunk->chunkSize);', 'memcpy(rawChunk->chunkData, data, rawChunk->chunkSize & 0xffff);'))
M('set keeps size', 'C30', ('rawchunk.c', '    rawChunk->chunkSize = chunkSize;', '    if(chunkSize > 0)\n        rawChunk->chunkSize = chunkSize;'))
R('raw read loop', ('rawchunk.c', '''    if(fread(rawChunk->chunkData, sizeof(IFF_UByte), rawChunk->chunkSize, file) < rawChunk->chunkSize)
    {''', '''    size_t todo = rawChunk->chunkSize;

    if(fread(rawChunk->chunkData, 1, todo, file) != todo)
    {'''))
R('raw write reorder', ('rawchunk.c', '''    if(fwrite(rawChunk->chunkData, sizeof(IFF_UByte), rawChunk->chunkSize, file) < rawChunk->chunkSize)
    {''', '''    IFF_Bool complete = fwrite(rawChunk->chunkData, sizeof(IFF_UByte), rawChunk->chunkSize, file) == (size_t)rawChunk->chunkSize;

    if(!complete)
    {'''))
R('copy loop', ('rawchunk.c', '    memcpy(rawChunk->chunkData, data, rawChunk->chunkSize);', '    IFF_Long i;\n\n    for(i = 0; i < rawChunk->chunkSize; i++)\n        rawChunk->chunkData[i] = data[i];'))
R('settext inline', ('rawchunk.c', '    IFF_setRawChunkData(rawChunk, chunkData, textLength);', '    rawChunk->chunkSize = (IFF_Long)textLength;\n    rawChunk->chunkData = chunkData;'))
R('create min one', ('rawchunk.c', '(IFF_UByte*)malloc(chunkSize * sizeof(IFF_UByte));\n\n        if(rawChunk', '(IFF_UByte*)malloc(chunkSize > 0 ? chunkSize : 1);\n\n        if(rawChunk'))

# ---- long runs
M('zero fill length in 16 bits', 'C02', ('io.c', 'size_t bytesToSkip = chunkSize - bytesProcessed;', 'IFF_UWord bytesToSkip = chunkSize - bytesProcessed;'))
M('skip length in 16 bits', 'C03', ('io.c', 'IFF_Long bytesToSkip = chunkSize - bytesProcessed;', 'IFF_UWord bytesToSkip = chunkSize - bytesProcessed;'))
M('pad byte pushed back', 'C03', ('io.c', 'IFF_error("WARNING: Padding byte is non-zero!\\n");', '{ IFF_error("WARNING: Padding byte is non-zero!\\n"); ungetc(byte, file); }'))

# ---------------------------------------------------------------- C08
M('body failure leaks chunk', 'C08', ('chunk.c', '            IFF_freeChunk(chunk, formType, chunkRegistry);\n            return NULL;', '            return NULL;'))
M('pad failure leaks chunk', 'C08', ('chunk.c', '''            || !IFF_skipUnknownBytes(file, chunk->chunkId, chunkSize, bytesProcessed)
            || !IFF_readPaddingByte(file, chunkSize, chunk->chunkId))
        {
            IFF_freeChunk(chunk, formType, chunkRegistry);
            return NULL;
        }''', '''            || !IFF_skipUnknownBytes(file, chunk->chunkId, chunkSize, bytesProcessed))
        {
            IFF_freeChunk(chunk, formType, chunkRegistry);
            return NULL;
        }
        if(!IFF_readPaddingByte(file, chunkSize, chunk->chunkId))
            return NULL;'''))
M('body failure frees only the struct', 'C08', ('chunk.c', '            IFF_freeChunk(chunk, formType, chunkRegistry);\n            return NULL;', '            free(chunk);\n            return NULL;'))
M('body failure returns freed', 'C08', ('chunk.c', '            IFF_freeChunk(chunk, formType, chunkRegistry);\n            return NULL;', '            IFF_freeChunk(chunk, formType, chunkRegistry);\n            return chunkSize > 0 ? NULL : chunk;'))
M('raw payload failure leaks struct', 'C08', ('rawchunk.c', '            free(rawChunk);\n            return NULL;', '            return NULL;'))
M('attach realloc in place', 'C08', ('group.c', '''    IFF_Chunk **newChunk = (IFF_Chunk**)realloc(group->chunk, (group->chunkLength + 1) * sizeof(IFF_Chunk*));

    if(newChunk == NULL)
        return FALSE;

    group->chunk = newChunk;''', '''    group->chunk = (IFF_Chunk**)realloc(group->chunk, (group->chunkLength + 1) * sizeof(IFF_Chunk*));

    if(group->chunk == NULL)
        return FALSE;
'''))
M('attach realloc freed', 'C08', ('group.c', '''    if(newChunk == NULL)
        return FALSE;

    group->chunk = newChunk;''', '''    if(newChunk == NULL)
    {
        free(group->chunk);
        return FALSE;
    }

    group->chunk = newChunk;'''))
M('attach new array', 'C08', ('group.c', '''    IFF_Chunk **newChunk = (IFF_Chunk**)realloc(group->chunk, (group->chunkLength + 1) * sizeof(IFF_Chunk*));

    if(newChunk == NULL)
        return FALSE;
''', '''    unsigned int i;
    IFF_Chunk **newChunk = (IFF_Chunk**)malloc((group->chunkLength + 1) * sizeof(IFF_Chunk*));

    if(newChunk == NULL)
        return FALSE;

    for(i = 0; i < group->chunkLength; i++)
        newChunk[i] = group->chunk[i];
'''))
R('attach new array', ('group.c', '''    IFF_Chunk **newChunk = (IFF_Chunk**)realloc(group->chunk, (group->chunkLength + 1) * sizeof(IFF_Chunk*));

    if(newChunk == NULL)
        return FALSE;
''', '''    unsigned int i;
    IFF_Chunk **newChunk = (IFF_Chunk**)malloc((group->chunkLength + 1) * sizeof(IFF_Chunk*));

    if(newChunk == NULL)
        return FALSE;

    for(i = 0; i < group->chunkLength; i++)
        newChunk[i] = group->chunk[i];

    free(group->chunk);
'''))
M('prop realloc in place', 'C08', ('list.c', '''    IFF_Prop **newProp = (IFF_Prop**)realloc(list->prop, (list->propLength + 1) * sizeof(IFF_Prop*));

    if(newProp == NULL)
        return FALSE;

    list->prop = newProp;''', '''    list->prop = (IFF_Prop**)realloc(list->prop, (list->propLength + 1) * sizeof(IFF_Prop*));

    if(list->prop == NULL)
        return FALSE;
'''))
M('list attach failure of props leaks', 'C08', ('list.c', '''        if(!status)
        {
            IFF_freeChunk(chunk, list->contentsType, chunkRegistry);
            return FALSE;''', '''        if(!status)
        {
            if(chunk->chunkId != IFF_ID_PROP)
                IFF_freeChunk(chunk, list->contentsType, chunkRegistry);
            return FALSE;'''))
M('list attach success freed', 'C08', ('list.c', '''        if(!status)
        {
            IFF_freeChunk(chunk, list->contentsType, chunkRegistry);
            return FALSE;
        }
''', '''        if(!status || chunk->chunkSize > list->chunkSize)
        {
            IFF_freeChunk(chunk, list->contentsType, chunkRegistry);
            return FALSE;
        }
'''))
M('getchunks failure leaks', 'C08', ('form.c', '                free(result);\n                *chunksLength = 0;', '                *chunksLength = 0;'))
M('getchunks returns freed', 'C08', ('form.c', '                free(result);\n                *chunksLength = 0;\n                return NULL;', '                free(result);\n                return result;'))
M('search results leaked', 'C08', ('group.c', '        forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);\n        free(result);', '        forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);'))
M('search results leaked singles', 'C08', ('group.c', '        forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);\n        free(result);', '        forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);\n        if(resultLength > 1)\n            free(result);'))
R('search results guarded', ('group.c', '        forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);\n        free(result);', '        forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);\n        if(resultLength > 0)\n            free(result);'))
M('merge drops target', 'C08', ('form.c', '    if(result == NULL)\n        return target;', '    if(result == NULL)\n        return NULL;'))
M('file left open on failure', 'C08', ('iff.c', '    /* Close the file */\n    fclose(file);', '    if(chunk != NULL)\n        fclose(file);'))
M('file left open after failed write', 'C08', ('iff.c', '    if(fclose(file) != 0)\n', '    if(status && fclose(file) != 0)\n'))
M('readFd closes the stream', 'C08', ('iff.c', '        IFF_error("ERROR: cannot open main chunk!\\n");\n        return NULL;', '        IFF_error("ERROR: cannot open main chunk!\\n");\n        fclose(file);\n        return NULL;'))
M('closed twice', 'C08', ('iff.c', '    chunk = IFF_readFd(file, chunkRegistry);\n', '    chunk = IFF_readFd(file, chunkRegistry);\n\n    if(chunk == NULL)\n        fclose(file);\n'))
M('stdout closed', 'C08', ('iff.c', 'if(fflush(stdout) != 0)', 'if(fclose(stdout) != 0)'))
M('read after close', 'C08', ('iff.c', '''    chunk = IFF_readFd(file, chunkRegistry);

    /* Close the file */
    fclose(file);
''', '''    chunk = IFF_readFd(file, chunkRegistry);

    /* Close the file */
    fclose(file);
    if(ferror(file))
        IFF_error("Read error!\\n");
'''))
M('text copy leaked', 'C08', ('rawchunk.c', '    IFF_setRawChunkData(rawChunk, chunkData, textLength);\n    return TRUE;', '    if(textLength > 0)\n        IFF_setRawChunkData(rawChunk, chunkData, textLength);\n    else\n        rawChunk->chunkSize = 0;\n    return TRUE;'))
M('join leaks rejected input', 'C08', ('iffjoin/join.c', '            if(chunk != NULL)\n                IFF_free(chunk, NULL);\n', ''))
M('join leaks cat', 'C08', ('iffjoin/join.c', '            IFF_free((IFF_Chunk*)cat, NULL);\n            return 1;', '            return 1;'))
M('join frees inputs', 'C08', ('iffjoin/join.c', '''            IFF_free((IFF_Chunk*)cat, NULL);
            return 1;
        }
''', '''            IFF_free((IFF_Chunk*)cat, NULL);
            return 1;
        }
        if(outputFilename == NULL)
            IFF_free(chunk, NULL);
'''))
M('join leaks on write failure', 'C08', ('iffjoin/join.c', '        status = 1;\n', '        return 1;\n'))
M('pp leaks invalid', 'C08', ('iffpp/pp.c', '            status = 1;\n', '            return 1;\n'))
M('pp shallow free', 'C08', ('iffpp/pp.c', '        IFF_free(chunk, NULL);', '        free(chunk);'), ('iffpp/pp.c', '#include "pp.h"', '#include "pp.h"\n#include <stdlib.h>'))
R('readfile early return', ('iff.c', '''    chunk = IFF_readFd(file, chunkRegistry);

    /* Close the file */
    fclose(file);

    /* Return the chunk */
    return chunk;''', '''    if((chunk = IFF_readFd(file, chunkRegistry)) == NULL)
    {
        fclose(file);
        return NULL;
    }

    fclose(file);
    return chunk;'''))
R('join cleanup label', ('iffjoin/join.c', '''            if(chunk != NULL)
                IFF_free(chunk, NULL);

            IFF_free((IFF_Chunk*)cat, NULL);
            return 1;
        }
    }
''', '''            if(chunk != NULL)
                IFF_free(chunk, NULL);

            status = 1;
            goto done;
        }
    }
'''), ('iffjoin/join.c', '    /* Free everything */\n', 'done:\n'))
R('attach first then read', ('group.c', '''        if(!IFF_attachToGroup(group, chunk))
        {
            IFF_freeChunk(chunk, group->groupType, chunkRegistry);
            return FALSE;
        }

        /* Increase''', '''        if(IFF_attachToGroup(group, chunk) == FALSE)
        {
            IFF_error("Out of memory!\\n");
            IFF_freeChunk(chunk, group->groupType, chunkRegistry);
            return FALSE;
        }

        /* Increase'''))
R('body goto', ('chunk.c', '''        if(!chunkType->readExtensionChunkFields(file, chunk, chunkRegistry, &bytesProcessed)
            || !IFF_skipUnknownBytes(file, chunk->chunkId, chunkSize, bytesProcessed)
            || !IFF_readPaddingByte(file, chunkSize, chunk->chunkId))
        {
            IFF_freeChunk(chunk, formType, chunkRegistry);
            return NULL;
        }
    }

    return chunk;''', '''        if(!chunkType->readExtensionChunkFields(file, chunk, chunkRegistry, &bytesProcessed))
            goto fail;
        if(!IFF_skipUnknownBytes(file, chunkId, chunkSize, bytesProcessed))
            goto fail;
        if(!IFF_readPaddingByte(file, chunkSize, chunkId))
            goto fail;
    }

    return chunk;

fail:
    IFF_freeChunk(chunk, formType, chunkRegistry);
    return NULL;'''))
R('raw create separate', ('rawchunk.c', '''        rawChunk->chunkData = (IFF_UByte*)malloc(chunkSize * sizeof(IFF_UByte));

        if(rawChunk->chunkData == NULL)
        {
            free(rawChunk);
            return NULL;
        }''', '''        IFF_UByte *data = (IFF_UByte*)malloc(chunkSize * sizeof(IFF_UByte));

        if(data == NULL)
        {
            free(rawChunk);
            rawChunk = NULL;
        }
        else
            rawChunk->chunkData = data;'''))

# ---------------------------------------------------------------- C11
M('create chunk unchecked', 'C11', ('chunk.c', '''    if(chunk != NULL)
    {
        chunk->parent = NULL;
        chunk->chunkId = chunkId;
        chunk->chunkSize = chunkSize;
    }
''', '''    chunk->parent = NULL;
    chunk->chunkId = chunkId;
    chunk->chunkSize = chunkSize;
'''))
M('init group unchecked', 'C11', ('group.c', '    if(group != NULL)\n        IFF_initGroup(group, groupType);', '    IFF_initGroup(group, groupType);'))
M('list props unchecked', 'C11', ('list.c', '''    if(list != NULL)
    {
        IFF_initGroup((IFF_Group*)list, contentsType);

        list->prop = NULL;
        list->propLength = 0;
    }
''', '''    if(list != NULL)
        IFF_initGroup((IFF_Group*)list, contentsType);

    list->prop = NULL;
    list->propLength = 0;
'''))
M('body chunk unchecked', 'C11', ('chunk.c', '    if(chunk != NULL)\n    {\n        IFF_Long bytesProcessed = 0;', '    {\n        IFF_Long bytesProcessed = 0;'))
M('raw struct unchecked', 'C11', ('rawchunk.c', '    if(rawChunk != NULL)\n    {\n        rawChunk->chunkData', '    {\n        rawChunk->chunkData'))
M('raw payload missing', 'C11', ('rawchunk.c', '''        if(rawChunk->chunkData == NULL)
        {
            free(rawChunk);
            return NULL;
        }
''', ''))
M('raw payload missing for large', 'C11', ('rawchunk.c', '        if(rawChunk->chunkData == NULL)\n', '        if(rawChunk->chunkData == NULL && chunkSize < 0x100000)\n'))
R('raw payload of nothing', ('rawchunk.c', '        if(rawChunk->chunkData == NULL)\n', '        if(rawChunk->chunkData == NULL && chunkSize != 0)\n'))
M('attach unchecked', 'C11', ('group.c', '''    if(newChunk == NULL)
        return FALSE;

    group->chunk = newChunk;''', '    group->chunk = newChunk;'))
M('attach inverted order', 'C11', ('group.c', '''    if(newChunk == NULL)
        return FALSE;

    group->chunk = newChunk;
    group->chunk[group->chunkLength] = chunk;
    group->chunkLength++;
    chunk->parent = group;
''', '''    group->chunk = newChunk;
    chunk->parent = group;

    if(newChunk == NULL)
        return FALSE;

    group->chunk[group->chunkLength] = chunk;
    group->chunkLength++;
'''))
M('prop unchecked when first', 'C11', ('list.c', '    if(newProp == NULL)\n        return FALSE;', '    if(newProp == NULL && list->propLength > 0)\n        return FALSE;'))
M('group read chunk unchecked', 'C11', ('group.c', '''        if(chunk == NULL)
            return FALSE;

        /* Attach''', '        /* Attach'))
M('list read chunk unchecked', 'C11', ('list.c', '''        if(chunk == NULL)
            return FALSE;

        /* Add the PROP''', '        /* Add the PROP'))
M('getchunks unchecked', 'C11', ('form.c', '            if(newResult == NULL)\n', '            if(newResult == NULL && *chunksLength > 0)\n'))
M('getchunks length kept', 'C11', ('form.c', '                free(result);\n                *chunksLength = 0;', '                free(result);\n                *chunksLength = 1;'))
M('search own form unchecked', 'C11', ('form.c', '''            if(forms == NULL)
                *formsLength = 0;
            else
            {
                forms[0] = form;
                *formsLength = 1;
            }
''', '''            forms[0] = form;
            *formsLength = 1;
'''))
M('search own form length', 'C11', ('form.c', '''            if(forms == NULL)
                *formsLength = 0;
            else
            {
                forms[0] = form;
                *formsLength = 1;
            }
''', '''            if(forms != NULL)
                forms[0] = form;

            *formsLength = 1;
'''))
M('merge unchecked', 'C11', ('form.c', '    if(result == NULL)\n        return target;', '    if(result == NULL && sourceLength > 1)\n        return target;'))
M('text copy unchecked', 'C11', ('rawchunk.c', '    if(chunkData == NULL)\n        return FALSE;\n', ''))
M('filler unchecked', 'C11', ('io.c', 'emptyData != NULL && fwrite', 'fwrite'))
M('filler checked after', 'C11', ('io.c', 'emptyData != NULL && fwrite(emptyData, sizeof(IFF_UByte), bytesToSkip, file) == bytesToSkip', 'fwrite(emptyData, sizeof(IFF_UByte), bytesToSkip, file) == bytesToSkip && emptyData != NULL'))
M('join cat unchecked', 'C11', ('iffjoin/join.c', '    if(cat == NULL)\n        return 1;\n', ''))
M('join chunk unchecked', 'C11', ('iffjoin/join.c', 'chunk == NULL || !IFF_check', '!IFF_check'))
M('join frees missing chunk', 'C11', ('iffjoin/join.c', '            if(chunk != NULL)\n                IFF_free(chunk, NULL);', '            IFF_free(chunk, NULL);'))
M('join names unchecked', 'C11', ('iffjoin/main.c', '''        if(inputFilenames == NULL)
        {
            fprintf(stderr, "ERROR: Cannot allocate memory for the input file names!\\n");
            return 1;
        }
''', ''))
M('pp chunk unchecked', 'C11', ('iffpp/pp.c', '        fprintf(stderr, "Cannot open IFF file!\\n");\n        return 1;', '        fprintf(stderr, "Cannot open IFF file!\\n");\n        IFF_print(chunk, 0, NULL);\n        return 1;'))
M('file unchecked', 'C05', ('iff.c', '''    if(file == NULL)
    {
        IFF_error("ERROR: cannot open file: %s\\n", filename);
        return NULL;
    }

    /* Parse''', '    /* Parse'))
R('create chunk early', ('chunk.c', '''    if(chunk != NULL)
    {
        chunk->parent = NULL;
        chunk->chunkId = chunkId;
        chunk->chunkSize = chunkSize;
    }

    return chunk;''', '''    if(chunk == NULL)
        return NULL;

    chunk->parent = NULL;
    chunk->chunkId = chunkId;
    chunk->chunkSize = chunkSize;
    return chunk;'''))
R('init group helper checks', ('group.c', '    if(group != NULL)\n        IFF_initGroup(group, groupType);\n\n    return group;', '    return initialised(group, groupType);'),
  ('group.c', 'IFF_Group *IFF_createGroup(', 'static IFF_Group *initialised(IFF_Group *group, const IFF_ID groupType)\n{\n    if(!group)\n        return group;\n\n    IFF_initGroup(group, groupType);\n    return group;\n}\n\nIFF_Group *IFF_createGroup('))
R('raw payload with calloc', ('rawchunk.c', '(IFF_UByte*)malloc(chunkSize * sizeof(IFF_UByte));\n\n        if(rawChunk', '(IFF_UByte*)calloc(chunkSize, sizeof(IFF_UByte));\n\n        if(rawChunk'))

# ---------------------------------------------------------------- C09
GF = '''    for(i = 0; i < group->chunkLength; i++)
        IFF_freeChunk(group->chunk[i], group->groupType, chunkRegistry);

    free(group->chunk);
'''
M('prop array leaked', 'C09', ('list.c', '    free(list->prop);\n', ''))
M('props leaked without members', 'C09', ('list.c', '    freeListPropChunks(list, chunkRegistry);\n    free(list->prop);', '    if(list->chunkLength > 0)\n        freeListPropChunks(list, chunkRegistry);\n    free(list->prop);'))
M('prop array freed first', 'C09', ('list.c', '    freeListPropChunks(list, chunkRegistry);\n    free(list->prop);', '    free(list->prop);\n    freeListPropChunks(list, chunkRegistry);'))
M('list members counted as props', 'C09', ('list.c', '''    for(i = 0; i < list->propLength; i++)
        IFF_freeChunk(''', '''    for(i = 0; i < list->propLength && (i < list->chunkLength || i < 4); i++)
        IFF_freeChunk('''))
M('array freed first', 'C09', ('group.c', GF, '''    free(group->chunk);

    for(i = 0; i < group->chunkLength; i++)
        IFF_freeChunk(group->chunk[i], group->groupType, chunkRegistry);
'''))
M('array freed inside', 'C09', ('group.c', GF, '''    for(i = 0; i < group->chunkLength; i++)
    {
        IFF_freeChunk(group->chunk[i], group->groupType, chunkRegistry);

        if(i == group->chunkLength - 1)
            free(group->chunk);
    }
    if(group->chunkLength == 0)
        free(group->chunk);
''' .replace('i == group->chunkLength - 1', 'i + 2 == group->chunkLength || group->chunkLength == 1')))
M('array of one leaked', 'C09', ('group.c', GF, GF.replace('    free(group', '    if(group->chunkLength != 1)\n        free(group')))
M('last member leaked', 'C09', ('group.c', GF, GF.replace('i < group->chunkLength', 'i + 1 < group->chunkLength')))
M('members freed in 8 bits', 'C09', ('group.c', '    free(group->chunk);', '    free(group->chunk);', ), ('group.c', GF, GF.replace('i < group->chunkLength', 'i < (IFF_UByte)group->chunkLength')))
M('chunk read after free', 'C09', ('group.c', GF, GF.replace('''        IFF_freeChunk(group->chunk[i], group->groupType, chunkRegistry);
''', '''    {
        IFF_freeChunk(group->chunk[i], group->groupType, chunkRegistry);

        if(group->chunk[i]->parent != group)
            IFF_error("Inconsistent hierarchy!\\n");
    }
''')))
M('props of group skipped', 'C09', ('group.c', GF, GF.replace('        IFF_freeChunk(group', '        if(group->chunk[i]->chunkId != IFF_ID_PROP)\n            IFF_freeChunk(group')))
M('payload leaked when empty', 'C09', ('rawchunk.c', '    free(rawChunk->chunkData);', '    if(rawChunk->chunkSize > 0)\n        free(rawChunk->chunkData);'))
M('payload and chunk freed', 'C09', ('rawchunk.c', '    free(rawChunk->chunkData);\n', '    free(rawChunk->chunkData);\n    free(rawChunk);\n'))
M('prop free is raw', 'C09', ('prop.c', '    IFF_freeForm(chunk, chunkRegistry);', '    if(((IFF_Prop*)chunk)->chunkLength > 0)\n        IFF_freeForm(chunk, chunkRegistry);\n    else\n        IFF_freeChunk(chunk, 0, chunkRegistry);'))
M('chunk freed first', 'C09', ('chunk.c', '    chunkType->freeExtensionChunk(chunk, chunkRegistry);\n    free(chunk);', '    free(chunk);\n    chunkType->freeExtensionChunk(chunk, chunkRegistry);'))
M('nested chunk not freed', 'C09', ('chunk.c', '    chunkType->freeExtensionChunk(chunk, chunkRegistry);\n    free(chunk);', '    chunkType->freeExtensionChunk(chunk, chunkRegistry);\n\n    if(chunk->parent == NULL)\n        free(chunk);'))
M('parent updated on free', 'C09', ('chunk.c', '    chunkType->freeExtensionChunk(chunk, chunkRegistry);\n    free(chunk);', '    chunkType->freeExtensionChunk(chunk, chunkRegistry);\n    free(chunk);\n\n    if(chunk->parent != NULL)\n        chunk->parent->chunkSize -= chunk->chunkSize;'))
R('free group backwards', ('group.c', GF, '''    i = group->chunkLength;

    while(i > 0)
    {
        i--;
        IFF_freeChunk(group->chunk[i], group->groupType, chunkRegistry);
    }

    if(group->chunk != NULL)
        free(group->chunk);
'''))
R('free list props first', ('list.c', '    IFF_freeCAT(chunk, chunkRegistry);\n    freeListPropChunks(list, chunkRegistry);\n    free(list->prop);', '    freeListPropChunks(list, chunkRegistry);\n    free(list->prop);\n    IFF_freeGroup((IFF_Group*)chunk, chunkRegistry);'))
R('free clears members', ('group.c', GF, GF + '    group->chunk = NULL;\n    group->chunkLength = 0;\n'))
R('free chunk once looked up', ('chunk.c', '    chunkType->freeExtensionChunk(chunk, chunkRegistry);\n    free(chunk);', '    void (*release)(IFF_Chunk *, const IFF_ChunkRegistry *) = chunkType->freeExtensionChunk;\n\n    release(chunk, chunkRegistry);\n    free(chunk);'))

# ---------------------------------------------------------------- C28
M('null member retried on read', 'C28', ('group.c', '        if(chunk == NULL)\n            return FALSE;\n\n        /* Attach', '        if(chunk == NULL)\n            continue;\n\n        /* Attach'))
M('list null member retried', 'C28', ('list.c', '        if(chunk == NULL)\n            return FALSE;\n\n        /* Add', '        if(chunk == NULL)\n            continue;\n\n        /* Add'))
M('skip counter in 8 bits', 'C28', ('io.c', '        IFF_Long i;\n\n        /* Read the bytes', '        IFF_UByte i;\n\n        /* Read the bytes'), ('io.c', 'if(fgetc(file) == EOF)\n            {\n                IFF_error("Cannot skip', 'if(fgetc(file) == EOF && ferror(file))\n            {\n                IFF_error("Cannot skip'))
M('write counter in 8 bits', 'C28', ('group.c', 'IFF_Bool IFF_writeGroupSubChunks(FILE *file, const IFF_Group *group, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)\n{\n    unsigned int i;', 'IFF_Bool IFF_writeGroupSubChunks(FILE *file, const IFF_Group *group, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)\n{\n    unsigned char i;'))
M('update counter in 16 bits', 'C28', ('group.c', 'void IFF_updateGroupChunkSizes(IFF_Group *group)\n{\n    unsigned int i;', 'void IFF_updateGroupChunkSizes(IFF_Group *group)\n{\n    unsigned short i;'))
M('raw print counter in 16 bits', 'C28', ('rawchunk.c', '    IFF_Long i;\n    IFF_UByte byte;', '    IFF_UWord i;\n    IFF_UByte byte;'))
M('signed short text counter', 'C28', ('rawchunk.c', '    IFF_Long i;\n\n    IFF_printIndent(stdout, indentLevel, "text', '    IFF_Word i;\n\n    IFF_printIndent(stdout, indentLevel, "text'))
M('countdown never below zero', 'C28', ('group.c', GF, GF.replace('for(i = 0; i < group->chunkLength; i++)', 'for(i = group->chunkLength - 1; i >= 0; i--)')))
M('prop count advances with search', 'C28', ('list.c', '        if(list->prop[i]->formType == formType)\n            return list->prop[i];', '        if(list->prop[i]->formType == formType)\n            return list->prop[i];\n        else if(list->prop[i]->formType == 0)\n            i--;'))
M('compare skips without advancing', 'C28', ('group.c', '''        for(i = 0; i < group1->chunkLength; i++)
        {
            if(!IFF''', '''        for(i = 0; i < group1->chunkLength;)
        {
            if(group1->chunk[i] == group2->chunk[i])
                continue;

            i++;

            if(!IFF'''), ('group.c', 'if(!IFF_compareChunk(group1->chunk[i], group2->chunk[i],', 'if(!IFF_compareChunk(group1->chunk[i - 1], group2->chunk[i - 1],'))
M('searchList on itself', 'C28', ('form.c', 'return searchList((IFF_Chunk*)parent);', 'return searchList(chunk);'))
M('property search on the same object', 'C21', ('form.c', '            if(chunk == NULL)\n                return searchProperty((IFF_Chunk*)list, formType, chunkId);', '            if(chunk == NULL)\n                return searchProperty((IFF_Chunk*)prop, formType, chunkId);'))
M('parent lookup on the same node', 'C28', ('chunkregistry.c', 'return getChunkType(chunkId, chunkTypesNode->parent);', 'return getChunkType(chunkId, chunkTypesNode);'))
M('prop free on itself', 'C28', ('prop.c', '    IFF_freeForm(chunk, chunkRegistry);', '    IFF_freeChunk(chunk, 0, chunkRegistry);'))
M('sizes up and down', 'C28', ('group.c', '        group->chunkSize = IFF_incrementChunkSize(group->chunkSize, group->chunk[i]);\n}', '    {\n        if(group->chunk[i]->chunkSize < 0)\n            IFF_updateChunkSizes(group->chunk[i]);\n\n        group->chunkSize = IFF_incrementChunkSize(group->chunkSize, group->chunk[i]);\n    }\n}'))
M('update on itself', 'C28', ('group.c', 'IFF_updateChunkSizes((IFF_Chunk*)chunk->parent);', 'IFF_updateChunkSizes(chunk);'))
M('search in form again', 'C28', ('form.c', 'return IFF_searchFormsInGroup((IFF_Group*)form,', 'return IFF_searchFormsFromArray((IFF_Chunk*)form,'))
M('search in cat again', 'C28', ('cat.c', 'return IFF_searchFormsInGroup((IFF_Group*)cat,', 'return IFF_searchFormsFromArray((IFF_Chunk*)cat,'))
M('check goes to parent', 'C28', ('prop.c', 'return IFF_checkGroup(', 'return (chunk->parent == NULL || IFF_checkChunk((const IFF_Chunk*)chunk->parent, 0, chunkRegistry)) && IFF_checkGroup('))
M('write waits for room', 'C28', ('io.c', '''    if(fwrite(&writeValue, sizeof(IFF_Long), 1, file) == 1)
        return TRUE;''', '''    while(fwrite(&writeValue, sizeof(IFF_Long), 1, file) != 1)
        ;

    if(1)
        return TRUE;'''))
M('retry read until data', 'C28', ('io.c', '        int byte = fgetc(file); /* Read padding byte */', '        int byte;\n\n        while((byte = fgetc(file)) == EOF && !ferror(file))\n            ;'))
M('join retries input', 'C28', ('iffjoin/join.c', '        IFF_Chunk *chunk = IFF_readFile(inputFilenames[i], NULL);', '        IFF_Chunk *chunk;\n\n        while((chunk = IFF_readFile(inputFilenames[i], NULL)) == NULL)\n            ;'))
M('retry on own allocation', 'C28', ('chunk.c', 'IFF_Chunk *chunk = (IFF_Chunk*)malloc(structSize);\n', 'IFF_Chunk *chunk;\n\n    while((chunk = (IFF_Chunk*)malloc(structSize)) == NULL)\n        ;\n'))
R('searchList as a loop', ('form.c', '''    IFF_Group *parent = chunk->parent;

    if(parent == NULL)
        return NULL;
    else
    {
        if(parent->chunkId == IFF_ID_LIST)
            return (IFF_List*)parent;
        else
            return searchList((IFF_Chunk*)parent);
    }
''', '''    const IFF_Group *parent = chunk->parent;

    while(parent != NULL && parent->chunkId != IFF_ID_LIST)
        parent = parent->parent;

    return (IFF_List*)parent;
'''))
R('registry walk as a loop', ('chunkregistry.c', '''    if(chunkTypesNode == NULL)
        return NULL;
    else
    {
        IFF_ChunkType *result;
        IFF_ChunkType key;
        key.chunkId = chunkId;

        result = (IFF_ChunkType*)bsearch(&key, chunkTypesNode->chunkTypes, chunkTypesNode->chunkTypesLength, sizeof(IFF_ChunkType), &compareChunkTypes);

        if(result == NULL)
            return getChunkType(chunkId, chunkTypesNode->parent);
        else
            return result;
    }
''', '''    IFF_ChunkType key;
    key.chunkId = chunkId;

    for(; chunkTypesNode != NULL; chunkTypesNode = chunkTypesNode->parent)
    {
        IFF_ChunkType *result = (IFF_ChunkType*)bsearch(&key, chunkTypesNode->chunkTypes, chunkTypesNode->chunkTypesLength, sizeof(IFF_ChunkType), &compareChunkTypes);

        if(result != NULL)
            return result;
    }

    return NULL;
'''))
R('update sizes as a loop', ('group.c', '''    /* Check whether the given chunk is a group chunk and update the sizes */
    switch(chunk->chunkId)
    {
        case IFF_ID_FORM:
            IFF_updateFormChunkSizes((IFF_Form*)chunk);
            break;
        case IFF_ID_PROP:
            IFF_updatePropChunkSizes((IFF_Prop*)chunk);
            break;
        case IFF_ID_CAT:
            IFF_updateCATChunkSizes((IFF_CAT*)chunk);
            break;
        case IFF_ID_LIST:
            IFF_updateListChunkSizes((IFF_List*)chunk);
            break;
    }

    /* If the given type has a parent, recursively update these as well */
    if(chunk->parent != NULL)
        IFF_updateChunkSizes((IFF_Chunk*)chunk->parent);
''', '''    while(chunk != NULL)
    {
        switch(chunk->chunkId)
        {
            case IFF_ID_FORM:
                IFF_updateFormChunkSizes((IFF_Form*)chunk);
                break;
            case IFF_ID_PROP:
                IFF_updatePropChunkSizes((IFF_Prop*)chunk);
                break;
            case IFF_ID_CAT:
                IFF_updateCATChunkSizes((IFF_CAT*)chunk);
                break;
            case IFF_ID_LIST:
                IFF_updateListChunkSizes((IFF_List*)chunk);
                break;
        }

        chunk = (IFF_Chunk*)chunk->parent;
    }
'''))
R('property search as a loop', ('form.c', '''    IFF_List *list = searchList(chunk);

    if(list == NULL)
        return NULL; /* If the chunk is not (indirectly) in a list, we have no shared properties at all */
    else
    {
        /* Try requesting the PROP chunk for the given form type */
        IFF_Prop *prop = IFF_getPropFromList(list, formType);

        if(prop == NULL)
            return searchProperty((IFF_Chunk*)list, formType, chunkId); /* If we can't find a shared property chunk with the given form type, try searching for a list higher in the hierarchy */
        else
        {
            /* Try requesting the chunk from the shared property chunk */
            IFF_Chunk *chunk = IFF_getChunkFromProp(prop, chunkId);

            if(chunk == NULL)
                return searchProperty((IFF_Chunk*)list, formType, chunkId); /* If the requested chunk is not in the PROP chunk, try searching for a list higher in the hierarchy */
            else
                return chunk; /* We have found the requested shared property chunk */
        }
    }
''', '''    IFF_List *list;

    while((list = searchList(chunk)) != NULL)
    {
        IFF_Prop *prop = IFF_getPropFromList(list, formType);

        if(prop != NULL)
        {
            IFF_Chunk *found = IFF_getChunkFromProp(prop, chunkId);

            if(found != NULL)
                return found;
        }

        chunk = (const IFF_Chunk*)list;
    }

    return NULL;
'''))
R('skip counts down', ('io.c', '        for(i = 0; i < bytesToSkip; i++)\n        {\n            if(fgetc', '        for(i = bytesToSkip; i > 0; i--)\n        {\n            if(fgetc'))
R('retry interrupted read', ('io.c', '        int byte = fgetc(file); /* Read padding byte */', '        int byte;\n\n        byte = getc(file); /* Read padding byte */'))
R('indent by chunks of two', ('util.c', '''    for(i = 0; i < indentLevel; i++)
      fprintf(file, "  ");
''', '''    for(i = indentLevel; i >= 2; i -= 2)
      fprintf(file, "    ");

    if(i > 0)
      fprintf(file, "  ");
'''))
R('member walk by pointer', ('group.c', '''    group->chunkSize = IFF_ID_SIZE;

    for(i = 0; i < group->chunkLength; i++)
        group->chunkSize = IFF_incrementChunkSize(group->chunkSize, group->chunk[i]);
''', '''    IFF_Chunk **member = group->chunk;
    IFF_Long size = IFF_ID_SIZE;

    for(i = group->chunkLength; i != 0; i--)
    {
        size = IFF_incrementChunkSize(size, *member);
        member++;
    }

    group->chunkSize = size;
'''))
R('indent from one', ('util.c', 'for(i = 0; i < indentLevel; i++)', 'for(i = 1; i <= indentLevel; i++)'))

# ---- C10
M('text copy includes terminator', 'C10', ('rawchunk.c', 'memcpy(chunkData, text, textLength);', 'memcpy(chunkData, text, textLength + 1);'))
M('text copied with strcpy', 'C10', ('rawchunk.c', 'memcpy(chunkData, text, textLength);', 'strcpy((char*)chunkData, text);'))
M('text terminator stored', 'C10', ('rawchunk.c', 'memcpy(chunkData, text, textLength);', "memcpy(chunkData, text, textLength);\n    chunkData[textLength] = '\\0';"))
M('text size recorded with terminator', 'C10', ('rawchunk.c', 'IFF_setRawChunkData(rawChunk, chunkData, textLength);', 'IFF_setRawChunkData(rawChunk, chunkData, textLength + 1);'))
M('attach grows to length only', 'C10', ('group.c', '(group->chunkLength + 1) * sizeof(IFF_Chunk*)', 'group->chunkLength * sizeof(IFF_Chunk*)'))
M('attach grows by half entries', 'C10', ('group.c', '(group->chunkLength + 1) * sizeof(IFF_Chunk*)', '(group->chunkLength + 1) * sizeof(IFF_ID)'))
M('attach grows only when even', 'C10', ('group.c', '(group->chunkLength + 1) * sizeof(IFF_Chunk*)', '(group->chunkLength + 1 - group->chunkLength / 8) * sizeof(IFF_Chunk*)'))
M('attach grows in 16 bit', 'C10', ('group.c', 'realloc(group->chunk, (group->chunkLength + 1)', 'realloc(group->chunk, (unsigned short)(group->chunkLength + 1)'))
M('attach stores behind', 'C10', ('group.c', '    group->chunk[group->chunkLength] = chunk;\n    group->chunkLength++;', '    group->chunkLength++;\n    group->chunk[group->chunkLength] = chunk;'))
M('attach counts before growing', 'C10', ('group.c', '    IFF_Chunk **newChunk = (IFF_Chunk**)realloc(group->chunk, (group->chunkLength + 1) * sizeof(IFF_Chunk*));\n\n    if(newChunk == NULL)\n        return FALSE;\n\n    group->chunk = newChunk;\n    group->chunk[group->chunkLength] = chunk;\n    group->chunkLength++;',
  '    IFF_Chunk **newChunk;\n    group->chunkLength++;\n    newChunk = (IFF_Chunk**)realloc(group->chunk, group->chunkLength * sizeof(IFF_Chunk*));\n\n    if(newChunk == NULL)\n        return FALSE;\n\n    group->chunk = newChunk;\n    group->chunk[group->chunkLength - 1] = chunk;'))
M('attach counts twice', 'C10 C19', ('group.c', '    group->chunkLength++;\n', '    group->chunkLength += 1 + (chunk->chunkSize < 0);\n'))
M('prop array sized by members', 'C10', ('list.c', '(list->propLength + 1) * sizeof(IFF_Prop*)', '(list->chunkLength + 1) * sizeof(IFF_Prop*)'))
M('prop stored at member index', 'C10', ('list.c', 'list->prop[list->propLength] = prop;', 'list->prop[list->chunkLength] = prop;'))
M('free loop inclusive', 'C10', ('group.c', '    for(i = 0; i < group->chunkLength; i++)\n        IFF_freeChunk(', '    for(i = 0; i <= group->chunkLength; i++)\n        IFF_freeChunk('))
M('print loop from one', 'C10', ('group.c', '    for(i = 0; i < group->chunkLength; i++)\n        IFF_printChunk((IFF_Chunk*)group->chunk[i]', '    for(i = 1; i <= group->chunkLength; i++)\n        IFF_printChunk((IFF_Chunk*)group->chunk[i]'))
M('check loop do while', 'C10', ('group.c', '''    for(i = 0; i < group->chunkLength; i++)
    {
        IFF_Chunk *subChunk = group->chunk[i];

        if(!subChunkCheck(group, subChunk))
            return -1;

        /* Check validity of the sub chunk */
        if(!IFF_checkChunk(subChunk, group->groupType, chunkRegistry))
            return -1;

        chunkSize = IFF_incrementChunkSize(chunkSize, subChunk);
    }
''', '''    i = 0;
    do
    {
        IFF_Chunk *subChunk = group->chunk[i];

        if(!subChunkCheck(group, subChunk))
            return -1;

        /* Check validity of the sub chunk */
        if(!IFF_checkChunk(subChunk, group->groupType, chunkRegistry))
            return -1;

        chunkSize = IFF_incrementChunkSize(chunkSize, subChunk);
        i++;
    }
    while(i < group->chunkLength);
'''))
M('compare bounded by the other length', 'C10', ('group.c', 'if(group1->groupType == group2->groupType && group1->chunkLength == group2->chunkLength)', 'if(group1->groupType == group2->groupType && group1->chunkLength >= group2->chunkLength)'))
M('compare without length', 'C10', ('group.c', 'if(group1->groupType == group2->groupType && group1->chunkLength == group2->chunkLength)', 'if(group1->groupType == group2->groupType)'))
M('compare props without length', 'C10', ('list.c', 'list1->propLength == list2->propLength', 'list1->propLength >= list2->propLength'))
M('compare chunk sizes not compared', 'C10', ('chunk.c', 'if(chunk1->chunkId == chunk2->chunkId && chunk1->chunkSize == chunk2->chunkSize)', 'if(chunk1->chunkId == chunk2->chunkId)'))
M('compare chunk sizes rounded', 'C10', ('chunk.c', 'chunk1->chunkSize == chunk2->chunkSize)', '(chunk1->chunkSize | 1) == (chunk2->chunkSize | 1))'))
M('compare chunk IDs not compared', 'C10', ('chunk.c', 'if(chunk1->chunkId == chunk2->chunkId && chunk1->chunkSize == chunk2->chunkSize)', 'if(chunk1->chunkSize == chunk2->chunkSize)'))
M('memcmp with padding', 'C10', ('rawchunk.c', 'rawChunk2->chunkData, rawChunk1->chunkSize) == 0', 'rawChunk2->chunkData, rawChunk1->chunkSize + rawChunk1->chunkSize % 2) == 0'))
M('raw read with padding', 'C10', ('rawchunk.c', 'if(fread(rawChunk->chunkData, sizeof(IFF_UByte), rawChunk->chunkSize, file) < rawChunk->chunkSize)', 'if(fread(rawChunk->chunkData, sizeof(IFF_UByte), (rawChunk->chunkSize + 1) & ~1, file) < rawChunk->chunkSize)'))
M('raw read blocks of words', 'C10', ('rawchunk.c', 'if(fread(rawChunk->chunkData, sizeof(IFF_UByte), rawChunk->chunkSize, file) < rawChunk->chunkSize)', 'if(fread(rawChunk->chunkData, sizeof(IFF_UWord), rawChunk->chunkSize, file) < rawChunk->chunkSize)'))
M('raw payload allocated in 16 bit', 'C10', ('rawchunk.c', 'malloc(chunkSize * sizeof(IFF_UByte))', 'malloc((IFF_UWord)chunkSize * sizeof(IFF_UByte))'))
M('raw payload limited to a megabyte', 'C10', ('rawchunk.c', 'malloc(chunkSize * sizeof(IFF_UByte))', 'malloc((chunkSize > 1048576 ? 1048576 : chunkSize) * sizeof(IFF_UByte))'))
M('print raw inclusive', 'C10', ('rawchunk.c', "    for(i = 0; i < rawChunk->chunkSize; i++)\n        printf(\"%c\", rawChunk->chunkData[i]);", "    for(i = 0; i <= rawChunk->chunkSize; i++)\n        printf(\"%c\", rawChunk->chunkData[i]);"))
M('print raw looks ahead', 'C10', ('rawchunk.c', '        byte = rawChunk->chunkData[i];', '        byte = rawChunk->chunkData[i + 1] ? rawChunk->chunkData[i] : rawChunk->chunkData[i];'))
M('print raw looks back', 'C10', ('rawchunk.c', '        byte = rawChunk->chunkData[i];', '        byte = rawChunk->chunkData[i - 1] ? rawChunk->chunkData[i] : rawChunk->chunkData[i];'))
M('print raw row at once', 'C10', ('rawchunk.c', '        byte = rawChunk->chunkData[i];', '        if(i % 10 == 0 && rawChunk->chunkData[i + 9] == 0xff)\n            printf(" ");\n\n        byte = rawChunk->chunkData[i];'))
M('id check compares behind', 'C10', ('id.c', 'for(i = 0; i < IFF_ID_SIZE - 1; i++)', 'for(i = 0; i < IFF_ID_SIZE; i++)'))
M('id to string terminates', 'C10', ('id.c', '    id2[3] = id & 0xff;', "    id2[3] = id & 0xff;\n    id2[4] = '\\0';"))
M('id printed as string', 'C10', ('id.c', '    for(i = 0; i < IFF_ID_SIZE; i++)\n        printf("%c", id2[i]);', '    i = 0;\n    printf("%s", (const char*)id2);'))
M('merge in one array', 'C10', ('form.c', 'result[i + *targetLength] = source[i];', 'result[i + newLength] = source[i];'))
M('merge allocates target only', 'C10', ('form.c', 'realloc(target, newLength * sizeof(IFF_Form*))', 'realloc(target, (*targetLength > sourceLength ? *targetLength + 1 : newLength) * sizeof(IFF_Form*))'))
M('merge copies the new length', 'C10', ('form.c', '    for(i = 0; i < sourceLength; i++)\n        result', '    for(i = 0; i < newLength; i++)\n        result'))
M('merge memcpy sizes', 'C10', ('form.c', '    for(i = 0; i < sourceLength; i++)\n        result[i + *targetLength] = source[i];', '    memcpy(result + *targetLength, source, newLength * sizeof(IFF_Form*));\n    i = 0;'), ('form.c', '#include "form.h"', '#include <string.h>\n#include "form.h"'))
M('merge counts before storing', 'C10', ('form.c', '    for(i = 0; i < sourceLength; i++)\n        result[i + *targetLength] = source[i];\n\n    *targetLength = newLength;', '    *targetLength = newLength;\n\n    for(i = 0; i < sourceLength; i++)\n        result[i + *targetLength] = source[i];'))
M('form types searched inclusive', 'C10', ('form.c', 'for(i = 0; i < formTypesLength; i++)', 'for(i = 0; i <= formTypesLength; i++)'))
M('single form block of an ID', 'C10', ('form.c', '(IFF_Form**)malloc(sizeof(IFF_Form*))', '(IFF_Form**)malloc(sizeof(IFF_ID))'))
M('single form recorded as two', 'C10', ('form.c', '                forms[0] = form;\n                *formsLength = 1;', '                forms[0] = form;\n                forms[1] = NULL;\n                *formsLength = 1;'))
M('search for the next form type', 'C10', ('form.c', 'const IFF_ID formType = formTypes[i];', 'const IFF_ID formType = formTypes[i + 1 < formTypesLength ? i : i + 1];'))
M('get chunks allocates once', 'C10', ('form.c', 'realloc(result, (*chunksLength + 1) * sizeof(IFF_Chunk*))', 'realloc(result, (*chunksLength < 4 ? 4 : *chunksLength) * sizeof(IFF_Chunk*))'))
M('get chunks terminates the array', 'C10', ('form.c', '            *chunksLength = *chunksLength + 1;', '            *chunksLength = *chunksLength + 1;\n            result[*chunksLength] = NULL;'))
M('get data chunk looks ahead', 'C10', ('form.c', '        if(form->chunk[i]->chunkId == chunkId)\n            return form->chunk[i];', '        if(form->chunk[i]->chunkId == chunkId && form->chunk[i + 1] != NULL)\n            return form->chunk[i];'))
M('get prop from members bound', 'C10', ('list.c', '    for(i = 0; i < list->propLength; i++)\n    {\n        if(list->prop[i]->formType == formType)', '    for(i = 0; i < list->chunkLength; i++)\n    {\n        if(list->prop[i]->formType == formType)'))
M('write props bound by members', 'C10', ('list.c', '''    for(i = 0; i < list->propLength; i++)
    {
        if(!IFF_writeChunk(file, (IFF_Chunk*)list->prop[i]''', '''    for(i = 0; i < list->chunkLength; i++)
    {
        if(!IFF_writeChunk(file, (IFF_Chunk*)list->prop[i]'''))
M('list object as group', 'C10 C27', ('list.c', 'sizeof(IFF_List)', 'sizeof(IFF_CAT)'))
M('filler too short', 'C10', ('io.c', 'calloc(bytesToSkip, sizeof(IFF_UByte))', 'calloc(bytesToSkip / 2 + 1, sizeof(IFF_UByte))'))
M('filler from a fixed buffer', 'C10', ('io.c', '        IFF_UByte *emptyData = (IFF_UByte*)calloc(bytesToSkip, sizeof(IFF_UByte));', '        static const IFF_UByte zeroes[4096];\n        const IFF_UByte *emptyData = zeroes;'), ('io.c', '        free(emptyData);\n        return status;', '        return status;'))
M('filler from the declared size', 'C10', ('io.c', 'fwrite(emptyData, sizeof(IFF_UByte), bytesToSkip, file) == bytesToSkip', 'fwrite(emptyData, sizeof(IFF_UByte), chunkSize, file) == chunkSize'))
M('global types one too many', 'C10 C12', ('defaultregistry.h', '#define IFF_NUM_OF_CHUNK_TYPES 4', '#define IFF_NUM_OF_CHUNK_TYPES 5'))
M('chunk types bound of registry', 'C10 C12', ('chunkregistry.c', 'bsearch(&key, chunkTypesNode->chunkTypes, chunkTypesNode->chunkTypesLength, sizeof(IFF_ChunkType)', 'bsearch(&key, chunkTypesNode->chunkTypes, chunkTypesNode->chunkTypesLength + 1, sizeof(IFF_ChunkType)'))
M('join names one short', 'C10', ('iffjoin/main.c', 'malloc(inputFilenamesLength * sizeof(char*))', 'malloc((inputFilenamesLength - 1) * sizeof(char*))'))
M('join names block of chars', 'C10', ('iffjoin/main.c', 'malloc(inputFilenamesLength * sizeof(char*))', 'malloc(inputFilenamesLength * sizeof(char))'))
M('join names terminated', 'C10', ('iffjoin/main.c', '        /* Join the IFF files */', '        inputFilenames[inputFilenamesLength] = NULL;\n        /* Join the IFF files */'))
M('join takes argc names', 'C10', ('iffjoin/main.c', 'for(i = 0; i < inputFilenamesLength; i++)', 'for(i = 0; i < argc; i++)'))
M('join fixed array of names', 'C10', ('iffjoin/main.c', '        char **inputFilenames = (char**)malloc(inputFilenamesLength * sizeof(char*));', '        char *names[64];\n        char **inputFilenames = names;'), ('iffjoin/main.c', '        free(inputFilenames);', ''))
M('join next name', 'C10', ('iffjoin/join.c', 'IFF_readFile(inputFilenames[i], NULL)', 'IFF_readFile(inputFilenames[i + 1], NULL)'))
M('pp takes the next argument', 'C10', ('iffpp/main.c', 'argv[optind]', 'argv[optind + 2]'))
M('update sizes looks at the next', 'C10', ('group.c', 'group->chunkSize = IFF_incrementChunkSize(group->chunkSize, group->chunk[i]);', 'group->chunkSize = IFF_incrementChunkSize(group->chunkSize, group->chunk[i + 1 < group->chunkLength || i > 2 ? i : i + 1]);'))
M('property of empty list peeked', 'C10', ('list.c', 'IFF_Prop *IFF_getPropFromList(const IFF_List *list, const IFF_ID formType)\n{\n    unsigned int i;\n', 'IFF_Prop *IFF_getPropFromList(const IFF_List *list, const IFF_ID formType)\n{\n    unsigned int i;\n\n    if(list->prop != NULL && list->prop[list->propLength]->formType == formType)\n        return list->prop[list->propLength];\n'))
M('last member peeked', 'C10', ('form.c', 'IFF_Chunk *IFF_getDataChunkFromForm(const IFF_Form *form, const IFF_ID chunkId)\n{\n    unsigned int i;\n', 'IFF_Chunk *IFF_getDataChunkFromForm(const IFF_Form *form, const IFF_ID chunkId)\n{\n    unsigned int i;\n\n    if(form->chunk[form->chunkLength - 1]->chunkId == chunkId && form->chunkLength == 1)\n        return form->chunk[0];\n'))
M('reverse scan to minus one', 'C10', ('form.c', '''    for(i = 0; i < form->chunkLength; i++)
    {
        if(form->chunk[i]->chunkId == chunkId)
            return form->chunk[i];
    }

    return NULL;
}

IFF_Chunk *IFF_getChunkFromForm''', '''    for(i = form->chunkLength; i > 0; i--)
    {
        if(form->chunk[i]->chunkId == chunkId)
            return form->chunk[i];
    }

    return NULL;
}

IFF_Chunk *IFF_getChunkFromForm'''))

# refactorings of array accesses
R('attach rounds capacity', ('group.c', '(group->chunkLength + 1) * sizeof(IFF_Chunk*)', '((group->chunkLength + 8) & ~7u) * sizeof(IFF_Chunk*)'))
R('attach rounds capacity by division', ('group.c', '(group->chunkLength + 1) * sizeof(IFF_Chunk*)', '(group->chunkLength / 4 + 1) * 4 * sizeof(IFF_Chunk*)'))
R('attach one spare', ('group.c', '(group->chunkLength + 1) * sizeof(IFF_Chunk*)', '(group->chunkLength + 2) * sizeof(IFF_Chunk*)'))
R('attach through end pointer', ('group.c', '    group->chunk[group->chunkLength] = chunk;\n    group->chunkLength++;', '    *(newChunk + group->chunkLength++) = chunk;'))
R('id printed through a text', ('id.c', '    IFF_ID2 id2;\n    unsigned int i;\n\n    IFF_idToString(id, id2);\n\n    for(i = 0; i < IFF_ID_SIZE; i++)\n        printf("%c", id2[i]);', '    char text[IFF_ID_SIZE];\n    unsigned int i;\n\n    IFF_idToString(id, text);\n\n    for(i = 0; i < sizeof(text); i++)\n        fputc(text[i], stdout);'))
R('id to string in a loop', ('id.c', '    id2[0] = id >> 24;\n    id2[1] = (id & 0xff0000) >> 16;\n    id2[2] = (id & 0xff00) >> 8;\n    id2[3] = id & 0xff;', '    unsigned int i;\n\n    for(i = 0; i < IFF_ID_SIZE; i++)\n        id2[i] = (id >> (24 - 8 * i)) & 0xff;'))
R('form types backwards', ('form.c', 'for(i = 0; i < formTypesLength; i++)', 'for(i = formTypesLength; i-- > 0; )'))
R('write props local length', ('list.c', '''    unsigned int i;

    for(i = 0; i < list->propLength; i++)
    {
        if(!IFF_writeChunk(''', '''    const unsigned int propLength = list->propLength;
    unsigned int i;

    for(i = 0; i != propLength; ++i)
    {
        if(!IFF_writeChunk('''))
R('print raw by rows', ('rawchunk.c', '''    for(i = 0; i < rawChunk->chunkSize; i++)
    {
        if(i > 0 && i % 10 == 0)
        {
            printf("\\n");
            IFF_printIndent(stdout, indentLevel + 1, "");
        }

        byte = rawChunk->chunkData[i];

        /* Print extra 0 for small numbers */
        if(byte <= 0xf)
            printf("0");

        printf("%x ", byte);
    }
''', '''    for(row = 0; row < rawChunk->chunkSize; row += 10)
    {
        if(row > 0)
        {
            printf("\\n");
            IFF_printIndent(stdout, indentLevel + 1, "");
        }

        for(i = row; i < row + 10 && i < rawChunk->chunkSize; i++)
        {
            byte = rawChunk->chunkData[i];

            /* Print extra 0 for small numbers */
            if(byte <= 0xf)
                printf("0");

            printf("%x ", byte);
        }
    }
'''), ('rawchunk.c', '    IFF_Long i;\n    IFF_UByte byte;\n', '    IFF_Long i, row;\n    IFF_UByte byte;\n'))
R('print text by pointer', ('rawchunk.c', '    IFF_Long i;\n\n    IFF_printIndent(stdout, indentLevel, "text', '    const IFF_UByte *p, *end;\n\n    IFF_printIndent(stdout, indentLevel, "text'),
  ('rawchunk.c', "    for(i = 0; i < rawChunk->chunkSize; i++)\n        printf(\"%c\", rawChunk->chunkData[i]);", "    p = rawChunk->chunkData;\n    end = p + rawChunk->chunkSize;\n\n    while(p < end)\n        printf(\"%c\", *p++);"))
R('get data chunk do while', ('form.c', '''    for(i = 0; i < form->chunkLength; i++)
    {
        if(form->chunk[i]->chunkId == chunkId)
            return form->chunk[i];
    }

    return NULL;
}

IFF_Chunk *IFF_getChunkFromForm''', '''    if(form->chunkLength == 0)
        return NULL;

    i = 0;

    do
    {
        if(form->chunk[i]->chunkId == chunkId)
            return form->chunk[i];
    }
    while(++i < form->chunkLength);

    return NULL;
}

IFF_Chunk *IFF_getChunkFromForm'''))
R('get data chunk while', ('form.c', '''    unsigned int i;

    for(i = 0; i < form->chunkLength; i++)
    {
        if(form->chunk[i]->chunkId == chunkId)
            return form->chunk[i];
    }

    return NULL;
}

IFF_Chunk *IFF_getChunkFromForm''', '''    unsigned int left = form->chunkLength;
    IFF_Chunk **member = form->chunk;

    while(left > 0)
    {
        if((*member)->chunkId == chunkId)
            return *member;

        member++;
        left--;
    }

    return NULL;
}

IFF_Chunk *IFF_getChunkFromForm'''))
R('compare members by pointers', ('group.c', '''        unsigned int i;

        for(i = 0; i < group1->chunkLength; i++)
        {
            if(!IFF_compareChunk(group1->chunk[i], group2->chunk[i], group1->groupType, chunkRegistry))
                return FALSE;
        }
''', '''        IFF_Chunk **a = group1->chunk;
        IFF_Chunk **b = group2->chunk;
        IFF_Chunk **end = a + group1->chunkLength;

        for(; a != end; a++, b++)
        {
            if(!IFF_compareChunk(*a, *b, group1->groupType, chunkRegistry))
                return FALSE;
        }
'''))
R('compare bounded by the second', ('group.c', 'for(i = 0; i < group1->chunkLength; i++)\n        {\n            if(!IFF_compareChunk', 'for(i = 0; i < group2->chunkLength; i++)\n        {\n            if(!IFF_compareChunk'))
R('merge from the end', ('form.c', '    for(i = 0; i < sourceLength; i++)\n        result[i + *targetLength] = source[i];', '    for(i = sourceLength; i > 0; i--)\n        result[*targetLength + i - 1] = source[i - 1];'))
R('merge through a cursor', ('form.c', '    for(i = 0; i < sourceLength; i++)\n        result[i + *targetLength] = source[i];\n\n    *targetLength = newLength;', '    for(i = *targetLength; i < newLength; i++)\n        result[i] = source[i - *targetLength];\n\n    *targetLength = newLength;'))
R('merge counting up', ('form.c', '    for(i = 0; i < sourceLength; i++)\n        result[i + *targetLength] = source[i];\n\n    *targetLength = newLength;', '    for(i = 0; i < sourceLength; i++)\n        result[(*targetLength)++] = source[i];'))
R('free members by while', ('group.c', '''    unsigned int i;

    for(i = 0; i < group->chunkLength; i++)
        IFF_freeChunk(group->chunk[i], group->groupType, chunkRegistry);
''', '''    unsigned int i = group->chunkLength;

    while(i > 0)
    {
        i--;
        IFF_freeChunk(group->chunk[i], group->groupType, chunkRegistry);
    }
'''))
R('check members index plus one', ('group.c', '''    for(i = 0; i < group->chunkLength; i++)
    {
        IFF_Chunk *subChunk = group->chunk[i];

        if(!subChunkCheck''', '''    for(i = 1; i <= group->chunkLength; i++)
    {
        IFF_Chunk *subChunk = group->chunk[i - 1];

        if(!subChunkCheck'''))
R('get chunks with local count', ('form.c', '''            IFF_Chunk **newResult = (IFF_Chunk**)realloc(result, (*chunksLength + 1) * sizeof(IFF_Chunk*));
''', '''            const unsigned int count = *chunksLength + 1;
            IFF_Chunk **newResult = (IFF_Chunk**)realloc(result, count * sizeof(IFF_Chunk*));
'''), ('form.c', '''            result[*chunksLength] = form->chunk[i];
            *chunksLength = *chunksLength + 1;''', '''            result[count - 1] = form->chunk[i];
            *chunksLength = count;'''))
R('get chunks allocates for all', ('form.c', '            IFF_Chunk **newResult = (IFF_Chunk**)realloc(result, (*chunksLength + 1) * sizeof(IFF_Chunk*));', '            IFF_Chunk **newResult = (IFF_Chunk**)realloc(result, form->chunkLength * sizeof(IFF_Chunk*));'))
R('filler from a fixed block', ('io.c', '''        IFF_UByte *emptyData = (IFF_UByte*)calloc(bytesToSkip, sizeof(IFF_UByte));
        IFF_Bool status = emptyData != NULL && fwrite(emptyData, sizeof(IFF_UByte), bytesToSkip, file) == bytesToSkip;
''', '''        static const IFF_UByte emptyData[64];
        size_t left = bytesToSkip;
        IFF_Bool status = TRUE;

        while(status && left > 0)
        {
            size_t step = left < sizeof(emptyData) ? left : sizeof(emptyData);

            status = fwrite(emptyData, sizeof(IFF_UByte), step, file) == step;
            left -= step;
        }
'''), ('io.c', '        free(emptyData);\n        return status;', '        return status;'))
R('join names with terminator', ('iffjoin/main.c', 'malloc(inputFilenamesLength * sizeof(char*))', 'malloc((inputFilenamesLength + 1) * sizeof(char*))'), ('iffjoin/main.c', '        /* Join the IFF files */', '        inputFilenames[inputFilenamesLength] = NULL;\n\n        /* Join the IFF files */'))
R('join names from optind on', ('iffjoin/main.c', '        for(i = 0; i < inputFilenamesLength; i++)\n            inputFilenames[i] = argv[optind + i];', '        for(i = optind; i < argc; i++)\n            inputFilenames[i - optind] = argv[i];'))

# ---- second round, written from the statements
# C01
M('2 readWord drops sign via UByte', 'C01', ('io.c', '''        *value = (readWord & 0xff) << 8 | (readWord & 0xff00) >> 8;
#endif
        return TRUE;''', '''        *value = (readWord & 0xff) << 8 | ((readWord & 0xff00) >> 8 & 0x7f) | (readWord & 0x8000) >> 8;
        if(*value == -1)
            *value = 0x7fff;
#endif
        return TRUE;'''))
M('2 writeULong saturates', 'C01', ('io.c', '    IFF_ULong writeValue = (value & 0xff) << 24 | (value & 0xff00) << 8 | (value & 0xff0000) >> 8 | (value & 0xff000000) >> 24;', '    IFF_ULong writeValue = (value & 0xff) << 24 | (value & 0xff00) << 8 | (value & 0xff0000) >> 8 | (value & 0xff000000) >> 24;\n\n    if(value > 0x7fffffff)\n        writeValue |= 0x80;'))
M('2 readUByte strips high bit', 'C01', ('io.c', '        *value = byte;', "        *value = byte == 0xff ? 0xfe : byte;"))
M('2 readId folds', 'C01', ('id.c', 'return IFF_readULong(file, id, chunkId, attributeName);', 'IFF_Bool status = IFF_readULong(file, id, chunkId, attributeName);\n\n    if(status && (*id & 0xff) == 0)\n        *id |= 0x20;\n\n    return status;'))
M('2 writeId pads', 'C01', ('id.c', 'return IFF_writeULong(file, id, chunkId, attributeName);', "return IFF_writeULong(file, (id & 0xff) == 0 ? id | ' ' : id, chunkId, attributeName);"))
# C02
M('2 pad by processed', 'C02', ('chunk.c', 'IFF_writePaddingByte(file, chunk->chunkSize, chunk->chunkId)', 'IFF_writePaddingByte(file, bytesProcessed > chunk->chunkSize ? bytesProcessed : chunk->chunkSize, chunk->chunkId)'))
M('2 filler even', 'C02', ('io.c', '        size_t bytesToSkip = chunkSize - bytesProcessed;', '        size_t bytesToSkip = (chunkSize - bytesProcessed + 1) & ~1;'))
M('2 filler limited', 'C02', ('io.c', '        size_t bytesToSkip = chunkSize - bytesProcessed;', '        size_t bytesToSkip = (IFF_UWord)(chunkSize - bytesProcessed);'))
M('2 filler spaces for text', 'C02', ('io.c', '        IFF_Bool status = emptyData != NULL && fwrite(', "        IFF_Bool status;\n\n        if(emptyData != NULL && chunkId == 0x54455854)\n            emptyData[0] = ' ';\n\n        status = emptyData != NULL && fwrite("))
M('2 size written after rounding', 'C02', ('chunk.c', '&& IFF_writeLong(file, chunk->chunkSize, chunk->chunkId, "chunkSize")', '&& IFF_writeLong(file, chunk->chunkSize < 0 ? 0 : chunk->chunkSize, chunk->chunkId, "chunkSize")'))
M('2 pad sign', 'C02', ('io.c', '''IFF_Bool IFF_writePaddingByte(FILE *file, const IFF_Long chunkSize, const IFF_ID chunkId)
{
    if(chunkSize % 2 != 0)''', '''IFF_Bool IFF_writePaddingByte(FILE *file, const IFF_Long chunkSize, const IFF_ID chunkId)
{
    if((chunkSize & 3) == 1)'''))
# C03
M('2 body skip when nothing read', 'C03', ('chunk.c', '|| !IFF_skipUnknownBytes(file, chunk->chunkId, chunkSize, bytesProcessed)', '|| (bytesProcessed > 0 && !IFF_skipUnknownBytes(file, chunk->chunkId, chunkSize, bytesProcessed))'))
M('2 pad chunk member', 'C03', ('chunk.c', '|| !IFF_readPaddingByte(file, chunkSize, chunk->chunkId)', '|| (bytesProcessed <= chunkSize && !IFF_readPaddingByte(file, chunkSize, chunk->chunkId))'))
M('2 skip by seek for big', 'C03', ('io.c', '        for(i = 0; i < bytesToSkip; i++)', '        for(i = 0; i < (bytesToSkip & 0xffffff); i++)'))
M('2 pad non zero pushed back', 'C03', ('io.c', '            IFF_error("WARNING: Padding byte is non-zero!\\n");', '        {\n            IFF_error("WARNING: Padding byte is non-zero!\\n");\n            ungetc(byte, file);\n        }'))
M('2 size of nested clipped', 'C03', ('chunk.c', '    return readChunkBody(file, chunkId, chunkSize, formType, chunkRegistry);', '    return readChunkBody(file, chunkId, chunkSize & 0x7fffffff, formType, chunkRegistry);'))
# C04
M('2 stdout write not flushed', 'C04', ('iff.c', 'if(fflush(stdout) != 0)', 'if(fflush(stdout) == 1)'))
M('2 close checked only after failure', 'C04', ('iff.c', '    if(fclose(file) != 0)\n', '    if(fclose(file) != 0 && !status)\n'))
M('2 list returns members status only', 'C04', ('list.c', '    if(!writeListPropChunks(file, list, chunkRegistry, bytesProcessed))\n        return FALSE;', '    if(list->propLength > 1 && !writeListPropChunks(file, list, chunkRegistry, bytesProcessed))\n        return FALSE;\n    else if(list->propLength == 1)\n        writeListPropChunks(file, list, chunkRegistry, bytesProcessed);'))
M('2 field failure becomes last when full', 'C04', ('field.c', '''    else if(IFF_writeUWord(file, value, chunk->chunkId, attributeName))
    {
        increaseBytesProcessed(bytesProcessed, fieldSize);
        return IFF_FIELD_MORE;
    }
    else
        return IFF_FIELD_FAILURE;''', '''    else if(IFF_writeUWord(file, value, chunk->chunkId, attributeName))
    {
        increaseBytesProcessed(bytesProcessed, fieldSize);
        return IFF_FIELD_MORE;
    }
    else
        return *bytesProcessed + 2 == chunk->chunkSize ? IFF_FIELD_LAST : IFF_FIELD_FAILURE;'''))
# C05
M('2 raw tolerant at end', 'C05', ('rawchunk.c', 'if(fread(rawChunk->chunkData, sizeof(IFF_UByte), rawChunk->chunkSize, file) < rawChunk->chunkSize)', 'if(fread(rawChunk->chunkData, sizeof(IFF_UByte), rawChunk->chunkSize, file) + 1 < rawChunk->chunkSize)'))
M('2 last pad may miss', 'C05', ('io.c', '        if(byte == EOF) /* We shouldn\'t have reached the EOF yet */', "        if(byte == EOF && chunkSize != 1) /* We shouldn't have reached the EOF yet */"))
M('2 member failure ends group', 'C05', ('group.c', '''        if(chunk == NULL)
            return FALSE;

        /* Attach chunk to the group */''', '''        if(chunk == NULL)
            return feof(file) && group->chunkLength > 0;

        /* Attach chunk to the group */'''))
M('2 skip eof at last byte', 'C05', ('io.c', '            if(fgetc(file) == EOF)\n', '            if(fgetc(file) == EOF && i + 1 < bytesToSkip)\n'))
M('2 stream error unseen', 'C05', ('io.c', '''    IFF_ULong readValue;

    if(fread(&readValue, sizeof(IFF_ULong), 1, file) == 1)''', '''    IFF_ULong readValue = 0;

    if(fread(&readValue, sizeof(IFF_ULong), 1, file) == 1 || ferror(file))'''))
# C06
M('2 read prop as member when first', 'C06', ('list.c', '        if(chunk->chunkId == IFF_ID_PROP)\n            status', '        if(chunk->chunkId == IFF_ID_PROP && list->chunkLength == 0)\n            status'))
M('2 writes skip empty chunk', 'C06', ('group.c', '        if(!IFF_writeChunk(file, group->chunk[i], group->groupType, chunkRegistry))', '        if(group->chunk[i]->chunkSize == 0 && group->chunk[i]->chunkId == 0x20202020)\n            continue;\n\n        if(!IFF_writeChunk(file, group->chunk[i], group->groupType, chunkRegistry))'))
M('2 list members first when no props type', 'C06', ('list.c', '''    if(!writeListPropChunks(file, list, chunkRegistry, bytesProcessed))
        return FALSE;

    if(!IFF_writeGroupSubChunks(file, (const IFF_Group*)chunk, chunkRegistry, bytesProcessed))
        return FALSE;
''', '''    if(list->contentsType == IFF_ID_JJJJ)
    {
        if(!IFF_writeGroupSubChunks(file, (const IFF_Group*)chunk, chunkRegistry, bytesProcessed))
            return FALSE;

        return writeListPropChunks(file, list, chunkRegistry, bytesProcessed);
    }

    if(!writeListPropChunks(file, list, chunkRegistry, bytesProcessed))
        return FALSE;

    if(!IFF_writeGroupSubChunks(file, (const IFF_Group*)chunk, chunkRegistry, bytesProcessed))
        return FALSE;
'''))
M('2 count of big member truncated', 'C06', ('list.c', '        *bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, (IFF_Chunk*)list->prop[i]);', '        *bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, (IFF_Chunk*)list->prop[i / 2]);'))
# C07
M('2 long field uses signed wrap', 'C07', ('field.c', 'return chunkSize < 0 || (size_t)chunkSize < fieldSize || bytesProcessed > chunkSize - (IFF_Long)fieldSize;', 'return chunkSize < 0 || bytesProcessed + (IFF_Long)fieldSize > chunkSize;'))
M('2 word field counts four', 'C07', ('field.c', '''IFF_FieldStatus IFF_writeWordField(FILE *file, const IFF_Word value, const IFF_Chunk *chunk, const char *attributeName, IFF_Long *bytesProcessed)
{
    size_t fieldSize = sizeof(IFF_Word);''', '''IFF_FieldStatus IFF_writeWordField(FILE *file, const IFF_Word value, const IFF_Chunk *chunk, const char *attributeName, IFF_Long *bytesProcessed)
{
    size_t fieldSize = sizeof(value) + (*bytesProcessed & 1);'''))
M('2 failing counts', 'C07', ('field.c', '''    else if(IFF_readUByte(file, value, chunk->chunkId, attributeName))
    {
        increaseBytesProcessed(bytesProcessed, fieldSize);
        return IFF_FIELD_MORE;
    }
    else
        return IFF_FIELD_FAILURE;''', '''    else
    {
        increaseBytesProcessed(bytesProcessed, fieldSize);
        return IFF_readUByte(file, value, chunk->chunkId, attributeName) ? IFF_FIELD_MORE : IFF_FIELD_FAILURE;
    }'''))
M('2 last when exactly full', 'C07', ('field.c', '''    else if(IFF_readUByte(file, value, chunk->chunkId, attributeName))
    {
        increaseBytesProcessed(bytesProcessed, fieldSize);
        return IFF_FIELD_MORE;''', '''    else if(IFF_readUByte(file, value, chunk->chunkId, attributeName))
    {
        increaseBytesProcessed(bytesProcessed, fieldSize);
        return *bytesProcessed == chunk->chunkSize ? IFF_FIELD_LAST : IFF_FIELD_MORE;'''))
# C08
M('2 form search frees nothing', 'C20', ('group.c', '        free(result);\n', '        if(forms != result)\n            free(result);\n'), ('form.c', '''    if(sourceLength == 0)
        return target;
''', '''    if(sourceLength == 0)
        return target;

    if(target == NULL)
    {
        *targetLength = sourceLength;
        return source;
    }
'''), ('form.c', '''    result = (IFF_Form**)realloc(target, newLength''', '''    if(newLength > 0x1000000)
        return target;

    result = (IFF_Form**)realloc(target, newLength'''))
M('2 prop leaked when attach fails', 'C08', ('list.c', '''        if(!status)
        {
            IFF_freeChunk(chunk, list->contentsType, chunkRegistry);
            return FALSE;''', '''        if(!status)
        {
            if(chunk->chunkId != IFF_ID_PROP)
                IFF_freeChunk(chunk, list->contentsType, chunkRegistry);
            return FALSE;'''))
M('2 read file keeps file when empty', 'C08', ('iff.c', '    /* Close the file */\n    fclose(file);', '    /* Close the file */\n    if(chunk != NULL || !feof(file))\n        fclose(file);'))
M('2 join double free of added', 'C08', ('iffjoin/join.c', '''            if(chunk != NULL)
                IFF_free(chunk, NULL);

            IFF_free((IFF_Chunk*)cat, NULL);
            return 1;''', '''            if(chunk != NULL)
                IFF_free(chunk, NULL);
            else if(i > 0)
                IFF_free(cat->chunk[i - 1], NULL);

            IFF_free((IFF_Chunk*)cat, NULL);
            return 1;'''))
M('2 stdin closed', 'C08', ('iff.c', '    if(filename == NULL)\n        return IFF_readFd(stdin, chunkRegistry);', '    if(filename == NULL)\n    {\n        IFF_Chunk *chunk = IFF_readFd(stdin, chunkRegistry);\n\n        if(chunk == NULL)\n            fclose(stdin);\n\n        return chunk;\n    }'))
# C09
M('2 free list without props when empty', 'C09', ('list.c', '    IFF_freeCAT(chunk, chunkRegistry);\n    freeListPropChunks(list, chunkRegistry);\n    free(list->prop);', '    IFF_freeCAT(chunk, chunkRegistry);\n\n    if(list->chunkLength > 0)\n        freeListPropChunks(list, chunkRegistry);\n\n    free(list->prop);'))
M('2 free of raw only if sized', 'C09', ('rawchunk.c', '    free(rawChunk->chunkData);\n}', '    if(rawChunk->chunkSize > 0)\n        free(rawChunk->chunkData);\n}'))
M('2 chunk read after free', 'C09', ('chunk.c', '    free(chunk);\n}', '    free(chunk);\n\n    if(chunk->parent != NULL && chunkRegistry == NULL)\n        chunk->parent = NULL;\n}'))
M('2 free skips members of other parent', 'C09', ('group.c', '    for(i = 0; i < group->chunkLength; i++)\n        IFF_freeChunk(', '    for(i = 0; i < group->chunkLength; i++)\n        if(group->chunk[i]->parent == group)\n        IFF_freeChunk('))
# C11
M('2 attach writes before test', 'C11', ('list.c', '    if(newProp == NULL)\n        return FALSE;\n\n    list->prop = newProp;\n    list->prop[list->propLength] = prop;', '    list->prop = newProp;\n    newProp[list->propLength] = prop;\n\n    if(newProp == NULL)\n        return FALSE;\n'))
M('2 create raw returns chunk without payload', 'C11', ('rawchunk.c', '''        if(rawChunk->chunkData == NULL)
        {
            free(rawChunk);
            return NULL;
        }''', '''        if(rawChunk->chunkData == NULL)
            rawChunk->chunkSize = 0;'''))
M('2 empty cat unchecked in join', 'C11', ('iffjoin/join.c', '    if(cat == NULL)\n        return 1;\n', '    if(cat == NULL && inputFilenamesLength == 0)\n        return 1;\n'))
M('2 list init unchecked', 'C11', ('list.c', '    if(list != NULL)\n', '    if(list != NULL || chunkSize == 0)\n'))
# C12
M('2 form specific ignored for groups', 'C12', ('chunkregistry.c', '        if(formChunkTypes != NULL)\n', '        if(formChunkTypes != NULL && formType != chunkId)\n'))
M('2 parent chain once', 'C12', ('chunkregistry.c', '            return getChunkType(chunkId, chunkTypesNode->parent);', '        {\n            if(chunkTypesNode->parent != NULL && chunkTypesNode->parent->parent == chunkTypesNode->parent)\n                return NULL;\n\n            return chunkTypesNode->parent == NULL ? NULL : (IFF_ChunkType*)bsearch(&key, chunkTypesNode->parent->chunkTypes, chunkTypesNode->parent->chunkTypesLength, sizeof(IFF_ChunkType), &compareChunkTypes);\n        }'))
M('2 comparator by first character', 'C12', ('chunkregistry.c', '''    if(l->formType < r->formType)
        return -1;
    else if(l->formType > r->formType)
        return 1;''', '''    if((l->formType >> 8) < (r->formType >> 8))
        return -1;
    else if((l->formType >> 8) > (r->formType >> 8))
        return 1;'''))
M('2 default before global', 'C12', ('chunkregistry.c', '        if(result == NULL)\n            result = getChunkType(chunkId, chunkRegistry->globalChunkTypesNode);', '        if(result == NULL && (formChunkTypes == NULL || chunkRegistry->formChunkTypesLength > 1))\n            result = getChunkType(chunkId, chunkRegistry->globalChunkTypesNode);'))
# C13
M('2 prop freed in own type', 'C13', ('list.c', 'IFF_freeChunk((IFF_Chunk*)list->prop[i], list->contentsType, chunkRegistry);', 'IFF_freeChunk((IFF_Chunk*)list->prop[i], list->prop[i]->formType, chunkRegistry);'))
M('2 print members in list context', 'C13', ('group.c', 'indentLevel + 1, group->groupType, chunkRegistry);', 'indentLevel + 1, group->chunkId == IFF_ID_LIST ? 0 : group->groupType, chunkRegistry);'), ('group.c', '#include "group.h"', '#include "group.h"\n#include "list.h"'))
M('2 compare second context', 'C16', ('group.c', 'if(group1->groupType == group2->groupType && group1->chunkLength == group2->chunkLength)', 'if(group1->chunkLength == group2->chunkLength)'), ('group.c', 'group2->chunk[i], group1->groupType, chunkRegistry))', 'group2->chunk[i], group2->groupType, chunkRegistry))'))
M('2 write uses check handler table', 'C13', ('chunk.c', 'IFF_findChunkType(chunkRegistry, formType, chunk->chunkId);\n    IFF_Long bytesProcessed = 0;', 'IFF_findChunkType(chunkRegistry, chunk->parent == NULL ? formType : chunk->parent->groupType, chunk->chunkId);\n    IFF_Long bytesProcessed = 0;'))
# C14
M('2 tilde refused', 'C14', ('id.c', 'id2[i] > 0x7e', 'id2[i] >= 0x7e'))
M('2 digits first refused', 'C14', ('form.c', "!(formType2[i] >= '0' && formType2[i] <= '9')", "!(formType2[i] >= '0' && formType2[i] <= '9' && (i > 0 || formType2[1] != ' '))"))
M('2 CAT7 forgotten', 'C14', ('form.c', '       formType == ID_CAT7 ||\n', ''))
M('2 prop filler', 'C14', ('form.c', 'if(!IFF_checkId(formType))', 'if(!IFF_checkId(formType) && formType != 0x20204141)'))
# C15
M('2 list contents match first only', 'C15', ('cat.c', '            if(group->groupType != cat->contentsType)', '            if(group->groupType != cat->contentsType && subChunk == cat->chunk[0])'))
M('2 prop in prop accepted', 'C15', ('prop.c', '       subChunk->chunkId == IFF_ID_CAT ||\n       subChunk->chunkId == IFF_ID_PROP)', '       subChunk->chunkId == IFF_ID_CAT)'))
M('2 size check skipped for odd', 'C15', ('group.c', '    if(chunkSize == group->chunkSize)\n        return TRUE;', '    if(chunkSize == group->chunkSize || (group->chunkSize % 2 != 0 && chunkSize == group->chunkSize + 1))\n        return TRUE;'))
M('2 props unchecked without members', 'C15', ('list.c', '        if(!IFF_checkChunk(propChunk, list->contentsType, chunkRegistry))\n            return -1;', '        if(list->chunkLength > 0 && !IFF_checkChunk(propChunk, list->contentsType, chunkRegistry))\n            return -1;'))
M('2 form type of list', 'C15', ('list.c', '    if(!IFF_checkId(list->contentsType))\n        return FALSE;\n', '    if(list->contentsType != 0 && !IFF_checkId(list->contentsType))\n        return FALSE;\n'))
# C16
M('2 compare props as sets of one', 'C16', ('list.c', 'if(list1->propLength == list2->propLength)', 'if(list1->propLength == list2->propLength || list1->chunkLength == 0)'))
M('2 compare text case', 'C16', ('rawchunk.c', 'return memcmp(rawChunk1->chunkData, rawChunk2->chunkData, rawChunk1->chunkSize) == 0;', 'return memcmp(rawChunk1->chunkData, rawChunk2->chunkData, rawChunk1->chunkSize) <= 0;'))
M('2 compare same payload', 'C16', ('rawchunk.c', 'return memcmp(rawChunk1->chunkData', 'return rawChunk1->parent == rawChunk2->parent || memcmp(rawChunk1->chunkData'))
M('2 compare last member only when even', 'C16', ('group.c', '            if(!IFF_compareChunk(group1->chunk[i], group2->chunk[i], group1->groupType, chunkRegistry))\n                return FALSE;', '            if(!IFF_compareChunk(group1->chunk[i], group2->chunk[i], group1->groupType, chunkRegistry))\n                return i + 1 == group1->chunkLength && i > 1;'))
# C17
M('2 check repairs size', 'C17', ('group.c', '        IFF_error("Chunk size mismatch! ");', '        if(chunkSize == group->chunkSize + 1)\n            ((IFF_Group*)group)->chunkSize = chunkSize;\n\n        IFF_error("Chunk size mismatch! ");'))
M('2 write relinks parent', 'C17', ('group.c', '        if(!IFF_writeChunk(file, group->chunk[i], group->groupType, chunkRegistry))', '        if(group->chunk[i]->parent == NULL)\n            group->chunk[i]->parent = (IFF_Group*)group;\n\n        if(!IFF_writeChunk(file, group->chunk[i], group->groupType, chunkRegistry))'))
M('2 find caches in registry', 'C17', ('chunkregistry.c', '            return chunkRegistry->defaultChunkType;', '        {\n            chunkRegistry->defaultChunkType->chunkId = chunkId;\n            return chunkRegistry->defaultChunkType;\n        }'))
M('2 search sorts requested', 'C17', ('form.c', '    /* If the given form is what we look for, return it */', '    if(formTypesLength == 2 && formTypes[0] > formTypes[1])\n    {\n        IFF_ID swap = formTypes[0];\n        ((IFF_ID*)formTypes)[0] = formTypes[1];\n        ((IFF_ID*)formTypes)[1] = swap;\n    }\n\n    /* If the given form is what we look for, return it */'))
# C18
M('2 padding of negative', 'C18', ('group.c', '    if(chunk->chunkSize % 2 != 0)\n        returnValue++;', '    if(chunk->chunkSize % 2 != 0 && chunkSize % 2 == 0)\n        returnValue++;'))
M('2 update stops at list', 'C18', ('group.c', '    if(chunk->parent != NULL)\n        IFF_updateChunkSizes', '    if(chunk->parent != NULL && chunk->parent->chunkSize != 4)\n        IFF_updateChunkSizes'))
M('2 add prop updates members size', 'C18', ('list.c', '    list->chunkSize = chunkSize;', '    list->chunkSize = IFF_incrementChunkSize(list->propLength == 1 ? IFF_ID_SIZE : list->chunkSize, (IFF_Chunk*)prop);'))
M('2 prop sizes not updated', 'C18', ('group.c', '            IFF_updatePropChunkSizes((IFF_Prop*)chunk);', '            if(((IFF_Prop*)chunk)->chunkLength > 0)\n                IFF_updatePropChunkSizes((IFF_Prop*)chunk);'))
# C19
M('2 parent kept when set', 'C19', ('group.c', '    chunk->parent = group;\n', '    if(chunk->parent == NULL)\n        chunk->parent = group;\n'))
M('2 contents type first form only', 'C19', ('cat.c', "        if(cat->chunkLength == 1)\n            cat->contentsType = group->groupType;", "        if(cat->chunkLength == 1 && cat->contentsType == IFF_ID_JJJJ)\n            cat->contentsType = group->groupType;"))
M('2 create group keeps size', 'C19', ('group.c', 'IFF_Group *group = (IFF_Group*)IFF_createChunk(chunkId, chunkSize, sizeof(IFF_Group));', 'IFF_Group *group = (IFF_Group*)IFF_createChunk(chunkId, chunkSize < 4 ? 4 : chunkSize, sizeof(IFF_Group));'))
M('2 read members prepended after many', 'C06 C19', ('group.c', '    group->chunk[group->chunkLength] = chunk;\n    group->chunkLength++;', '    group->chunk[group->chunkLength] = chunk;\n\n    if(group->chunkLength == 2)\n    {\n        group->chunk[2] = group->chunk[1];\n        group->chunk[1] = chunk;\n    }\n\n    group->chunkLength++;'))
# C20
M('2 search stops after first group', 'C20', ('group.c', '        forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);\n        free(result);', '        forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);\n        free(result);\n\n        if(*formsLength >= 2 && resultLength == 0)\n            break;'))
M('2 search also nested', 'C20', ('form.c', '                forms[0] = form;\n                *formsLength = 1;', '                forms[0] = form;\n                *formsLength = form->chunkLength == 0xffff ? 2 : 1;'))
M('2 merge front', 'C20', ('form.c', '    for(i = 0; i < sourceLength; i++)\n        result[i + *targetLength] = source[i];', '    for(i = 0; i < sourceLength; i++)\n        result[newLength - 1 - i] = source[i];'))
M('2 search second type only', 'C20', ('form.c', 'for(i = 0; i < formTypesLength; i++)\n    {\n        const IFF_ID formType = formTypes[i];', 'for(i = 0; i < formTypesLength; i++)\n    {\n        const IFF_ID formType = formTypes[i > 2 ? 2 : i];'))
# C21
M('2 property of the list with members', 'C21', ('form.c', '            if(chunk == NULL)\n                return searchProperty((IFF_Chunk*)list, formType, chunkId);', '            if(chunk == NULL && list->parent != NULL && list->parent->chunkId == IFF_ID_LIST)\n                return searchProperty((IFF_Chunk*)list, formType, chunkId);'))
M('2 last prop wins', 'C21', ('form.c', '        if(form->chunk[i]->chunkId == chunkId)\n            return form->chunk[i];\n    }\n\n    return NULL;\n}\n\nIFF_Chunk *IFF_getChunkFromForm', '        if(form->chunk[form->chunkLength - 1 - i]->chunkId == chunkId)\n            return form->chunk[form->chunkLength - 1 - i];\n    }\n\n    return NULL;\n}\n\nIFF_Chunk *IFF_getChunkFromForm'))
M('2 prop only for typed lists', 'C21', ('list.c', '        if(list->prop[i]->formType == formType)\n            return list->prop[i];', '        if(list->prop[i]->formType == formType && (list->contentsType == IFF_ID_JJJJ || list->contentsType == formType))\n            return list->prop[i];'))
M('2 retrieve includes shared', 'C21', ('form.c', '            *chunksLength = *chunksLength + 1;\n        }\n    }\n\n    return result;\n}\n', '            *chunksLength = *chunksLength + 1;\n        }\n    }\n\n    if(result == NULL && form->parent != NULL)\n    {\n        IFF_Chunk *shared = IFF_getChunkFromForm(form, chunkId);\n\n        if(shared != NULL && (result = (IFF_Chunk**)malloc(sizeof(IFF_Chunk*))) != NULL)\n        {\n            result[0] = shared;\n            *chunksLength = 1;\n        }\n    }\n\n    return result;\n}\n') )
# C22
M('2 perror on open', 'C22', ('iff.c', '    if(file == NULL)\n    {\n        IFF_error("ERROR: cannot open file: %s\\n", filename);\n        return FALSE;', '    if(file == NULL)\n    {\n        perror(filename);\n        return FALSE;'))
M('2 check prints to stdout', 'C22', ('group.c', '        IFF_errorId(group->chunkId);\n        IFF_error(" size:', '        IFF_printId(group->chunkId);\n        IFF_error(" size:'), ('group.c', '#include "group.h"', '#include "group.h"\n#include "id.h"'))
M('2 assert in create', 'C22', ('chunk.c', '    if(chunk != NULL)\n    {\n        chunk->parent = NULL;', '    if(structSize < sizeof(IFF_Chunk))\n        abort();\n\n    if(chunk != NULL)\n    {\n        chunk->parent = NULL;'), ('chunk.c', '#include "chunk.h"', '#include <stdlib.h>\n#include "chunk.h"'))
M('2 id as text in message', 'C23', ('group.c', 'IFF_error(" size: %d, while body has: %d\\n", group->chunkSize, chunkSize);', 'IFF_error(" size: %d, while body has: %ld\\n", group->chunkSize, chunkSize);'))
M('2 text printed as format', 'C23', ('rawchunk.c', '        printf("%c", rawChunk->chunkData[i]);', '        IFF_printIndent(stdout, 0, (const char*)&rawChunk->chunkData[i]);'))
M('2 groupTypeName as format', 'C23', ('group.c', 'IFF_printIndent(stdout, indentLevel, "%s = \'", groupTypeName);', 'IFF_printIndent(stdout, indentLevel, groupTypeName);\n    printf(" = \'");'))
# C24
M('2 static indent', 'C24', ('util.c', '    unsigned int i;\n\n    va_start', '    static unsigned int i;\n\n    va_start'))
M('2 static id buffer', 'C24', ('error.c', '    unsigned int i;\n    IFF_ID2 id2;', '    unsigned int i;\n    static IFF_ID2 id2;'))
M('2 last error remembered', 'C24', ('io.c', '    int byte = fgetc(file);\n\n    if(byte == EOF)\n    {\n        IFF_readError', '    static int failures;\n    int byte = fgetc(file);\n\n    if(byte == EOF && failures++ < 100)\n    {\n        IFF_readError'))
M('2 errno used', 'C05', ('io.c', '''        if(byte == EOF) /* We''', '''        if(byte == EOF && errno != 4) /* We'''), ('io.c', '#include "io.h"', '#include <errno.h>\n#include "io.h"'))
# C25
M('2 join opens early', 'C25', ('iffjoin/join.c', '    if(cat == NULL)\n        return 1;\n', '    FILE *probe;\n\n    if(cat == NULL)\n        return 1;\n\n    if(outputFilename != NULL && (probe = fopen(outputFilename, "ab")) != NULL)\n        fclose(probe);\n'))
M('2 join first input unchecked', 'C25', ('iffjoin/join.c', 'if(chunk == NULL || !IFF_check(chunk, NULL)', 'if(chunk == NULL || (i > 0 && !IFF_check(chunk, NULL))'))
M('2 join writes to first file', 'C25', ('iffjoin/main.c', 'status = IFF_join(inputFilenames, inputFilenamesLength, outputFilename);', "status = IFF_join(inputFilenames, inputFilenamesLength, outputFilename != NULL && outputFilename[0] == '-' ? NULL : outputFilename);"))
M('2 join status of many', 'C25', ('iffjoin/join.c', '            IFF_free((IFF_Chunk*)cat, NULL);\n            return 1;', '            IFF_free((IFF_Chunk*)cat, NULL);\n            return i % 256;'))
# C26
M('2 pp prints then checks', 'C26', ('iffpp/pp.c', 'if((options & IFFPP_DISABLE_CHECK) || IFF_check(chunk, NULL))', 'if((options & IFFPP_DISABLE_CHECK) | (IFF_check(chunk, NULL) || chunk->chunkSize == 4))'))
M('2 pp dash is a file', 'C26', ('iffpp/main.c', '    if(optind >= argc)\n        filename = NULL;', "    if(optind >= argc || argv[optind][0] == '\\0')\n        filename = NULL;"))
M('2 pp double c', 'C26', ('iffpp/main.c', 'options |= IFFPP_DISABLE_CHECK;\n                break;\n            case \'h\'', 'options ^= IFFPP_DISABLE_CHECK;\n                break;\n            case \'h\''))
# C27
# C28
M('2 skip loop stuck on zero byte', 'C03', ('io.c', '        for(i = 0; i < bytesToSkip; i++)', '        for(i = 0; i < bytesToSkip; i += bytesToSkip > 0x10000 ? 0x10000 : 1)'))
M('2 read loop retries failing member', 'C28', ('group.c', '''        if(chunk == NULL)
            return FALSE;

        /* Attach chunk to the group */''', '''        if(chunk == NULL && !feof(file))
            continue;

        if(chunk == NULL)
            return FALSE;

        /* Attach chunk to the group */'''))
M('2 search list from itself', 'C28', ('form.c', '        if(parent->chunkId == IFF_ID_LIST)\n            return (IFF_List*)parent;\n        else\n            return searchList((IFF_Chunk*)parent);', '        if(parent->chunkId == IFF_ID_LIST)\n            return (IFF_List*)parent;\n        else if(parent->parent == NULL && parent->chunkLength == 0)\n            return searchList(chunk);\n        else\n            return searchList((IFF_Chunk*)parent);'))
# C29
M('2 raw rows of ten lose byte', 'C29', ('rawchunk.c', '            printf("\\n");\n            IFF_printIndent(stdout, indentLevel + 1, "");\n        }', '            printf("\\n");\n            IFF_printIndent(stdout, indentLevel + 1, "");\n\n            if(i % 100 == 0)\n                i++;\n        }'))
M('2 text stops at zero', 'C29', ('rawchunk.c', "    for(i = 0; i < rawChunk->chunkSize; i++)\n        printf(\"%c\", rawChunk->chunkData[i]);", "    for(i = 0; i < rawChunk->chunkSize && rawChunk->chunkData[i] != '\\0'; i++)\n        printf(\"%c\", rawChunk->chunkData[i]);"))
M('2 size unsigned', 'C29', ('chunk.c', '"chunkSize = %d;\\n"', '"chunkSize = %hd;\\n"'))
M('2 props not indented', 'C29', ('list.c', 'IFF_printChunk((IFF_Chunk*)list->prop[i], indentLevel + 1,', 'IFF_printChunk((IFF_Chunk*)list->prop[i], indentLevel + (i < 3),'))
# C30
M('2 copy only when allocated', 'C30', ('rawchunk.c', '    memcpy(rawChunk->chunkData, data, rawChunk->chunkSize);', '    memcpy(rawChunk->chunkData, data, rawChunk->chunkSize & ~0x80000000u & 0xffffff);'))
M('2 text until newline', 'C30', ('rawchunk.c', '    size_t textLength = strlen(text);', '    size_t textLength = strcspn(text, "\\n");'))
M('2 raw write masks', 'C30', ('rawchunk.c', 'if(fwrite(rawChunk->chunkData, sizeof(IFF_UByte), rawChunk->chunkSize, file) < rawChunk->chunkSize)', 'if(fwrite(rawChunk->chunkData + (rawChunk->chunkSize == 7), sizeof(IFF_UByte), rawChunk->chunkSize, file) < rawChunk->chunkSize)'))
M('2 set data aliases', 'C30', ('rawchunk.c', '    rawChunk->chunkData = chunkData;\n    rawChunk->chunkSize = chunkSize;\n}', '    if(chunkSize > 0)\n        rawChunk->chunkData = chunkData;\n    rawChunk->chunkSize = chunkSize;\n}'))

# C34
M('3 size mismatch silent when smaller', 'C34', ('group.c', '''        IFF_error("Chunk size mismatch! ");
        IFF_errorId(group->chunkId);
        IFF_error(" size: %d, while body has: %d\\n", group->chunkSize, chunkSize);
        return FALSE;''', '''        if(chunkSize < group->chunkSize)
        {
            IFF_error("Chunk size mismatch! ");
            IFF_errorId(group->chunkId);
            IFF_error(" size: %d, while body has: %d\\n", group->chunkSize, chunkSize);
        }
        return FALSE;'''))
M('3 illegal high character silent', 'C34', ('id.c', '''            IFF_error("Illegal character: '%c' in ID!\\n", id2[i]);''', '''            if(id2[i] < 0x20)
                IFF_error("Illegal character: '%c' in ID!\\n", id2[i]);'''))
M('3 contents type remark', 'C34', ('cat.c', '''    if(cat->contentsType != IFF_ID_JJJJ)
    {
        /* Check''', '''    if(cat->contentsType == IFF_ID_JJJJ && subChunk->chunkSize == 0)
        IFF_error("Sub chunk is empty!\\n");

    if(cat->contentsType != IFF_ID_JJJJ)
    {
        /* Check'''))
R('filler failure silent without memory', ('io.c', '        if(!status)\n        {\n            IFF_error("Cannot write: %lu', '        if(!status && ferror(file))\n        {\n            IFF_error("Cannot write: %lu'))
M('3 padding end of file silent', 'C34', ('io.c', '''            IFF_error("Unexpected end of file, while reading padding byte of '");
            IFF_errorId(chunkId);
            IFF_error("'\\n");
            return FALSE;''', '''            return FALSE;'''))
M('3 raw empty read silent', 'C34', ('rawchunk.c', '''        IFF_error("Error reading raw chunk body of chunk: '");
        IFF_errorId(rawChunk->chunkId);
        IFF_error("'\\n");
        return FALSE;''', '''        if(!feof(file))
        {
            IFF_error("Error reading raw chunk body of chunk: '");
            IFF_errorId(rawChunk->chunkId);
            IFF_error("'\\n");
        }
        return FALSE;'''))
M('3 write file open silent', 'C34', ('iff.c', '''    FILE *file = fopen(filename, "wb");

    if(file == NULL)
    {
        IFF_error("ERROR: cannot open file: %s\\n", filename);
        return FALSE;
    }''', '''    FILE *file = fopen(filename, "wb");

    if(file == NULL)
        return FALSE;'''))
M('3 reserved names silent', 'C34', ('form.c', '''    if(formType == IFF_ID_LIST ||
       formType == IFF_ID_FORM ||''', '''    if(formType == IFF_ID_JJJJ)
        return FALSE;

    if(formType == IFF_ID_LIST ||
       formType == IFF_ID_FORM ||'''))
M('3 list size silent', 'C34', ('list.c', '    if(!IFF_checkGroupChunkSize((IFF_Group*)list, chunkSize))', '    if(list->propLength == 0 ? !IFF_checkGroupChunkSize((IFF_Group*)list, chunkSize) : chunkSize != list->chunkSize)'))
M('3 read long silent', 'C34', ('io.c', '        IFF_readError(chunkId, attributeName);', '        if(attributeName[0] != 0)\n            IFF_readError(chunkId, attributeName);'))
R('errors through a helper', ('io.c', '''IFF_Bool IFF_readPaddingByte(''', '''static IFF_Bool complain(const char *what, const IFF_ID chunkId)
{
    IFF_error("%s '", what);
    IFF_errorId(chunkId);
    IFF_error("'\\n");
    return FALSE;
}

IFF_Bool IFF_readPaddingByte('''), ('io.c', '''            IFF_error("Unexpected end of file, while reading padding byte of '");
            IFF_errorId(chunkId);
            IFF_error("'\\n");
            return FALSE;''', '''            return complain("Unexpected end of file, while reading padding byte of", chunkId);'''), ('io.c', '''            IFF_error("Cannot write padding byte of '");
            IFF_errorId(chunkId);
            IFF_error("'\\n");
            return FALSE;''', '''            return complain("Cannot write padding byte of", chunkId);'''))
R('check flag at the end', ('id.c', '''    unsigned int i;

    IFF_idToString(id, id2);

    /* ID characters must''', '''    unsigned int i;
    IFF_Bool good = TRUE;

    IFF_idToString(id, id2);

    /* ID characters must'''), ('id.c', '''            IFF_error("Illegal character: '%c' in ID!\\n", id2[i]);
            return FALSE;
        }
    }
''', '''            IFF_error("Illegal character: '%c' in ID!\\n", id2[i]);
            good = FALSE;
        }
    }

    if(!good)
        return FALSE;
'''), ('id.c', '''            IFF_error("Spaces may not precede an ID!\\n");
            return FALSE;
        }
    }

    return TRUE;''', '''            IFF_error("Spaces may not precede an ID!\\n");
            good = FALSE;
        }
    }

    return good;'''))
R('raw length error before', ('rawchunk.c', '''    if(fwrite(rawChunk->chunkData, sizeof(IFF_UByte), rawChunk->chunkSize, file) < rawChunk->chunkSize)
    {
        IFF_error("Error writing raw chunk body of chunk '");''', '''    size_t written = fwrite(rawChunk->chunkData, sizeof(IFF_UByte), rawChunk->chunkSize, file);

    if(written < (size_t)rawChunk->chunkSize)
    {
        IFF_error("Error writing raw chunk body of chunk '");'''))
# C35
M('3 field linkage lost', 'C35', ('field.h', '#ifdef __cplusplus\nextern "C" {\n#endif\n', ''), ('field.h', '#ifdef __cplusplus\n}\n#endif\n\n#endif', '#endif'))
M('3 util in C++ only renamed', 'C35', ('util.h', 'extern "C" {', 'namespace {'))
M('3 field guard lost', 'C35', ('field.h', '#define __IFF_FIELD_H\n', ''))
M('3 field relies on includes', 'C35', ('field.h', '#include <stdio.h>\n#include "chunk.h"\n', ''), ('field.c', '#include "field.h"', '#include "chunk.h"\n#include "field.h"'), ('defaultregistry.h', '#include', '#include "chunk.h"\n#include "field.h"\n#include'))
M('3 define missing', 'C35', ('field.h', 'IFF_FieldStatus IFF_readIdField(', 'IFF_FieldStatus IFF_peekIdField(FILE *file, IFF_ID *value);\n\nIFF_FieldStatus IFF_readIdField('))
M('3 C++ keyword', 'C35', ('form.h', 'IFF_Chunk *IFF_searchProperty', 'void IFF_unused(int class);\nIFF_Chunk *IFF_searchProperty')) if False else None
# C36
M('3 skip by seeking to the last byte', 'C36', ('io.c', '''        for(i = 0; i < bytesToSkip; i++)
        {''', '''        if(bytesToSkip > 4096 && fseek(file, bytesToSkip - 1, SEEK_CUR) != 0)
            return FALSE;

        for(i = bytesToSkip > 4096 ? bytesToSkip - 1 : 0; i < bytesToSkip; i++)
        {'''))
M('3 trailing by position', 'C36', ('iff.c', '''    if((byte = fgetc(file)) != EOF)
        IFF_error("WARNING: Trailing IFF contents found: %d!\\n", byte);
''', '''    byte = (int)ftell(file);
    fseek(file, 0, SEEK_END);

    if(byte != (int)ftell(file))
        IFF_error("WARNING: Trailing IFF contents found: %d!\\n", byte);
'''))
# ---------------------------------------------------------------- C37
M('3 bytesProcessed unset', 'C37', ('chunk.c', '''        IFF_Long bytesProcessed = 0;

        /* Read''', '''        IFF_Long bytesProcessed;

        /* Read'''))
M('3 status unset for members', 'C37', ('list.c', '''            status = IFF_attachToGroup((IFF_Group*)list, chunk);''', '''            IFF_attachToGroup((IFF_Group*)list, chunk);'''))
M('3 join status unset', 'C37', ('iffjoin/join.c', '    int status = 0;', '    int status;'))
M('3 list size sum unset', 'C37', ('list.c', '    IFF_Long chunkSize = 0;\n    unsigned int i;\n\n    for(i = 0; i < list->propLength', '    IFF_Long chunkSize;\n    unsigned int i;\n\n    for(i = 0; i < list->propLength'))
M('3 sub chunk sum unset', 'C37', ('group.c', '    IFF_Long chunkSize = 0;\n', '    IFF_Long chunkSize;\n'))
M('3 found flag unset', 'C37', ('group.c', '''        unsigned int i;

        for(i = 0; i < group1->chunkLength; i++)
        {
            if(!IFF_compareChunk(group1->chunk[i], group2->chunk[i], group1->groupType, chunkRegistry))
                return FALSE;
        }

        return TRUE;''', '''        unsigned int i;
        IFF_Bool equal;

        for(i = 0; i < group1->chunkLength; i++)
        {
            equal = IFF_compareChunk(group1->chunk[i], group2->chunk[i], group1->groupType, chunkRegistry);
            if(!equal)
                break;
        }

        return equal;'''))
M('3 status of empty prop list', 'C37', ('list.c', '''    unsigned int i;

    for(i = 0; i < list->propLength; i++)
    {
        if(!IFF_writeChunk''', '''    unsigned int i;

    if(list->propLength == 0)
        *bytesProcessed = *bytesProcessed + (int)i;

    for(i = 0; i < list->propLength; i++)
    {
        if(!IFF_writeChunk'''))
M('3 init group only when sized', 'C37', ('chunkregistry.c', '        IFF_ChunkType *result = NULL;\n\n        if(formChunkTypes', '        IFF_ChunkType *result;\n\n        if(formChunkTypes'))
M('3 group length from fresh memory', 'C37', ('group.c', '''    group->chunkLength = 0;
    group->chunk = NULL;''', '''    if(group->chunkLength != 0)
        group->chunkLength = 0;
    group->chunk = NULL;'''), )
M('3 byte printed unset', 'C37', ('rawchunk.c', '''        byte = rawChunk->chunkData[i];

        /* Print extra 0 for small numbers */
        if(byte <= 0xf)
            printf("0");

        printf("%x ", byte);''', '''        /* Print extra 0 for small numbers */
        if(byte <= 0xf)
            printf("0");

        byte = rawChunk->chunkData[i];
        printf("%x ", byte);'''))
M('3 pad byte unset', 'C37', ('io.c', '''        int byte = fgetc(file); /* Read padding byte */

        if(byte == EOF)''', '''        int byte;

        if(feof(file) == 0)
            byte = fgetc(file); /* Read padding byte */

        if(byte == EOF)'''))
R('flag and value together', ('form.c', '''    for(i = 0; i < form->chunkLength; i++)
    {
        if(form->chunk[i]->chunkId == chunkId)
            return form->chunk[i];
    }

    return NULL;''', '''    unsigned int where;
    IFF_Bool found = FALSE;

    for(i = 0; i < form->chunkLength; i++)
    {
        if(form->chunk[i]->chunkId == chunkId)
        {
            where = i;
            found = TRUE;
            break;
        }
    }

    if(!found)
        return NULL;

    return form->chunk[where];'''))
R('status by switch', ('group.c', '''    if((status = IFF_writeIdField(file, group->groupType, chunk, groupTypeName, bytesProcessed)) != IFF_FIELD_MORE)
        return IFF_deriveSuccess(status);

    if(!IFF_writeGroupSubChunks(file, group, chunkRegistry, bytesProcessed))
        return FALSE;

    return TRUE;''', '''    IFF_Bool result;

    status = IFF_writeIdField(file, group->groupType, chunk, groupTypeName, bytesProcessed);

    switch(status)
    {
        case IFF_FIELD_FAILURE:
            result = FALSE;
            break;
        case IFF_FIELD_LAST:
            result = TRUE;
            break;
        case IFF_FIELD_MORE:
            result = IFF_writeGroupSubChunks(file, group, chunkRegistry, bytesProcessed);
            break;
    }

    return result;'''))
M('3 list props of a new list unset', 'C37 C19', ('list.c', '        list->prop = NULL;\n', ''))
M('3 length of no result unset', 'C37 C20', ('group.c', '''        default:
            *formsLength = 0;
            return NULL;''', '''        default:
            return NULL;'''))
M('3 value kept on zero byte', 'C37 C01', ('io.c', '''        *value = byte;
        return TRUE;''', '''        if(byte != 0)
            *value = byte;
        return TRUE;'''))
M('3 parent of a chunk without data', 'C37 C19', ('chunk.c', '''        chunk->parent = NULL;
        chunk->chunkId = chunkId;''', '''        if(chunkSize > 0)
            chunk->parent = NULL;
        chunk->chunkId = chunkId;'''))

# ---------------------------------------------------------------- C38
M('4 count raised before growing', 'C38 C11', ('group.c', '''    IFF_Chunk **newChunk = (IFF_Chunk**)realloc(group->chunk, (group->chunkLength + 1) * sizeof(IFF_Chunk*));

    if(newChunk == NULL)
        return FALSE;

    group->chunk = newChunk;
    group->chunk[group->chunkLength] = chunk;
    group->chunkLength++;
''', '''    IFF_Chunk **newChunk;

    group->chunkLength++;
    newChunk = (IFF_Chunk**)realloc(group->chunk, group->chunkLength * sizeof(IFF_Chunk*));

    if(newChunk == NULL)
        return FALSE;

    group->chunk = newChunk;
    group->chunk[group->chunkLength - 1] = chunk;
'''))
M('4 size raised before attaching', 'C38', ('group.c', '''    if(!IFF_attachToGroup(group, chunk))
        return FALSE;

    group->chunkSize = chunkSize;
    return TRUE;''', '''    group->chunkSize = chunkSize;
    return IFF_attachToGroup(group, chunk);'''))
M('4 contents type before adding', 'C38', ('cat.c', '''    if(!IFF_addToCAT(cat, chunk))
        return FALSE;

    /* Only an added chunk may influence the contents type */
    updateContentsType(cat, chunk);
    return TRUE;''', '''    updateContentsType(cat, chunk);
    return IFF_addToCAT(cat, chunk);'''), ('cat.c', 'cat->chunkLength == 1', 'cat->chunkLength == 0'))
M('4 text size before payload', 'C38', ('rawchunk.c', '''    if(chunkData == NULL)
        return FALSE;

    memcpy(chunkData, text, textLength);''', '''    rawChunk->chunkSize = textLength;

    if(chunkData == NULL)
        return FALSE;

    memcpy(chunkData, text, textLength);'''))
M('4 payload dropped before allocation', 'C38', ('rawchunk.c', '''    if(chunkData == NULL)
        return FALSE;

    memcpy(chunkData, text, textLength);''', '''    if(chunkData == NULL)
    {
        IFF_setRawChunkData(rawChunk, NULL, 0);
        return FALSE;
    }

    memcpy(chunkData, text, textLength);'''))
M('4 prop parent first', 'C38', ('list.c', '''    if(newProp == NULL)
        return FALSE;

    list->prop = newProp;
    list->prop[list->propLength] = prop;
    list->propLength++;
    prop->parent = (IFF_Group*)list;
''', '''    prop->parent = (IFF_Group*)list;

    if(newProp == NULL)
        return FALSE;

    list->prop = newProp;
    list->prop[list->propLength] = prop;
    list->propLength++;
'''))
M('4 array replaced by failed growth', 'C38', ('group.c', '''    IFF_Chunk **newChunk = (IFF_Chunk**)realloc(group->chunk, (group->chunkLength + 1) * sizeof(IFF_Chunk*));

    if(newChunk == NULL)
        return FALSE;

    group->chunk = newChunk;
''', '''    group->chunk = (IFF_Chunk**)realloc(group->chunk, (group->chunkLength + 1) * sizeof(IFF_Chunk*));

    if(group->chunk == NULL)
        return FALSE;

'''))
M('4 parent kept after failed add', 'C38', ('group.c', '''    if(!IFF_attachToGroup(group, chunk))
        return FALSE;

    group->chunkSize = chunk''', '''    if(!IFF_attachToGroup(group, chunk))
    {
        chunk->parent = group;
        return FALSE;
    }

    group->chunkSize = chunk'''))
R('restore after failure', ('group.c', '''    IFF_Chunk **newChunk = (IFF_Chunk**)realloc(group->chunk, (group->chunkLength + 1) * sizeof(IFF_Chunk*));

    if(newChunk == NULL)
        return FALSE;

    group->chunk = newChunk;
    group->chunk[group->chunkLength] = chunk;
    group->chunkLength++;
''', '''    unsigned int last = group->chunkLength;
    IFF_Chunk **newChunk;

    group->chunkLength++;
    newChunk = (IFF_Chunk**)realloc(group->chunk, group->chunkLength * sizeof(IFF_Chunk*));

    if(newChunk == NULL)
    {
        group->chunkLength--;
        return FALSE;
    }

    group->chunk = newChunk;
    newChunk[last] = chunk;
'''))
R('status of the add', ('cat.c', '''    if(!IFF_addToCAT(cat, chunk))
        return FALSE;

    /* Only an added chunk may influence the contents type */
    updateContentsType(cat, chunk);
    return TRUE;''', '''    IFF_Bool status = IFF_addToCAT(cat, chunk);

    if(status)
        updateContentsType(cat, chunk);

    return status;'''))
R('contents type by old count', ('cat.c', '''    if(!IFF_addToCAT(cat, chunk))
        return FALSE;

    /* Only an added chunk may influence the contents type */
    updateContentsType(cat, chunk);
    return TRUE;''', '''    const IFF_ID oldType = cat->contentsType;

    updateContentsType(cat, chunk);

    if(IFF_addToCAT(cat, chunk))
        return TRUE;

    cat->contentsType = oldType;
    return FALSE;'''), ('cat.c', 'cat->chunkLength == 1', 'cat->chunkLength == 0'))
exec(compile(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'round5.py')).read(), 'round5.py', 'exec'))
exec(compile(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'round6.py')).read(), 'round6.py', 'exec'))
exec(compile(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'round7.py')).read(), 'round7.py', 'exec'))
exec(compile(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'round8.py')).read(), 'round8.py', 'exec'))
exec(compile(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'round9.py')).read(), 'round9.py', 'exec'))
exec(compile(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'round10.py')).read(), 'round10.py', 'exec'))
exec(compile(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'round11.py')).read(), 'round11.py', 'exec'))
exec(compile(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'round12.py')).read(), 'round12.py', 'exec'))
exec(compile(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'round13.py')).read(), 'round13.py', 'exec'))
