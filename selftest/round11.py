ADDG11 = '''    group->chunk[group->chunkLength] = chunk;
    group->chunkLength++;
    chunk->parent = group;
'''
M('11 parent only if unset', 'C19', ('group.c', '    chunk->parent = group;\n', '    if(chunk->parent == NULL)\n        chunk->parent = group;\n'))
M('11 update stops when unchanged', 'C18', ('group.c', '''void IFF_updateChunkSizes(IFF_Chunk *chunk)
{
''', '''void IFF_updateChunkSizes(IFF_Chunk *chunk)
{
    const IFF_Long oldSize = chunk->chunkSize;

'''), ('group.c', '''    if(chunk->parent != NULL)
        IFF_updateChunkSizes''', '''    if(chunk->parent != NULL && (chunk->chunkSize != oldSize || chunk->parent->parent == NULL))
        IFF_updateChunkSizes'''))
M('11 list sizes without members', 'C18', ('list.c', '''    IFF_updateCATChunkSizes((IFF_CAT*)list);
''', '''    if(list->chunkLength > 0 || list->propLength == 0)
        IFF_updateCATChunkSizes((IFF_CAT*)list);
'''))
M('11 cat of other contents hides list', 'C21', ('form.c', '''            return searchList((IFF_Chunk*)parent);
''', '''        {
            const IFF_List *list = searchList((IFF_Chunk*)parent);

            /* A concatenation with its own contents type does not share */
            if(list != NULL && parent->chunkId == IFF_ID_CAT && parent->groupType != IFF_ID_JJJJ && list->contentsType != parent->groupType)
                return NULL;

            return (IFF_List*)list;
        }
'''))
M('11 member freed by list kind', 'C13', ('list.c', '''            IFF_freeChunk(chunk, list->contentsType, chunkRegistry);
            return FALSE;''', '''            IFF_freeChunk(chunk, list->chunkId, chunkRegistry);
            return FALSE;'''))
M('11 padding optional', 'C03', ('io.c', '''        else if(byte != 0) /* Normally, a padding byte is 0, warn if this is not the case */
            IFF_error("WARNING: Padding byte is non-zero!\\n");
''', '''        else if(byte != 0) /* Normally, a padding byte is 0, warn if this is not the case */
        {
            IFF_error("WARNING: Padding byte is non-zero!\\n");

            /* Some writers do not pad, the byte then is the start of the next ID */
            if(byte >= 'A' && byte <= 'Z')
                ungetc(byte, file);
        }
'''))
M('11 repeated members checked once', 'C15', ('group.c', '''        IFF_Chunk *subChunk = group->chunk[i];

''', '''        IFF_Chunk *subChunk = group->chunk[i];

        /* Same properties as the member before it */
        if(i > 1 && subChunk->chunkId == group->chunk[i - 1]->chunkId && subChunk->chunkSize == group->chunk[i - 1]->chunkSize
            && subChunk->chunkId == group->chunk[i - 2]->chunkId && subChunk->chunkSize == group->chunk[i - 2]->chunkSize)
        {
            chunkSize = IFF_incrementChunkSize(chunkSize, subChunk);
            continue;
        }

'''))
M('11 print sorts members out', 'C17', ('iff.c', '''    IFF_printChunk(chunk, indentLevel, 0,''', '''    if(chunk->chunkId == IFF_ID_LIST && chunk->chunkSize == 0)
        IFF_updateChunkSizes((IFF_Chunk*)chunk);

    IFF_printChunk(chunk, indentLevel, 0,'''))
M('11 locale set', 'C22', ('iff.c', '#include "util.h"', '#include <locale.h>\n#include "util.h"'), ('iff.c', '''    IFF_printChunk(chunk, indentLevel, 0,''', '''    setlocale(LC_ALL, "");
    IFF_printChunk(chunk, indentLevel, 0,'''))
M('11 stdout closed', 'C22', ('iff.c', '        if(fflush(stdout) != 0)', '        if(fclose(stdout) != 0)'))
M('11 errors off while comparing', 'C24', ('iff.c', '''    return IFF_compareChunk(chunk1, chunk2, 0, selectChunkRegistry(chunkRegistry));''', '''    void (*callback) (const char *formatString, va_list ap) = IFF_errorCallback;
    IFF_Bool status;

    IFF_errorCallback = &IFF_errorCallbackStderr;
    status = IFF_compareChunk(chunk1, chunk2, 0, selectChunkRegistry(chunkRegistry));
    IFF_errorCallback = callback;
    return status;'''))
M('11 print depth limited', 'C29', ('group.c', '''    for(i = 0; i < group->chunkLength; i++)
        IFF_printChunk((''', '''    for(i = 0; i < group->chunkLength && indentLevel < 24; i++)
        IFF_printChunk(('''))
M('11 indentation capped', 'C29', ('util.c', 'for(i = 0; i < indentLevel; i++)', 'for(i = 0; i < indentLevel && i < 20; i++)'))
M('11 payload size rounded', 'C30', ('rawchunk.c', '''    rawChunk->chunkSize = chunkSize;
}''', '''    rawChunk->chunkSize = chunkSize > 1 ? chunkSize + chunkSize % 2 : chunkSize;
}'''))
M('11 header allocates', 'C35', ('chunk.h', '''IFF_Chunk *IFF_createChunk(''', '''static inline IFF_Chunk *IFF_noChunk(void)
{
    void *none = 0;
    return none;
}

IFF_Chunk *IFF_createChunk('''))
M('11 field functions for C only', 'C35', ('field.h', 'IFF_FieldStatus IFF_readUByteField(', '#ifndef __cplusplus\nIFF_FieldStatus IFF_readUByteField('), ('field.h', 'IFF_FieldStatus IFF_readUWordField(', '#endif\nIFF_FieldStatus IFF_readUWordField('))
M('11 reopens standard input', 'C36', ('iff.c', '        return IFF_readFd(stdin, chunkRegistry);', '    {\n        /* Binary mode */\n        FILE *file = freopen(NULL, "rb", stdin);\n\n        if(file == NULL)\n            return NULL;\n\n        return IFF_readFd(file, chunkRegistry);\n    }'))
M('11 skips by descriptor', 'C36', ('io.c', '''        IFF_Long i;

        /* Read''', '''        IFF_Long i = 0;

        if(bytesToSkip > 65536 && fseeko(file, bytesToSkip - 1, SEEK_CUR) == 0)
            i = bytesToSkip - 1;

        /* Read'''), ('io.c', 'for(i = 0; i < bytesToSkip; i++)\n        {\n            if(fgetc', 'for(; i < bytesToSkip; i++)\n        {\n            if(fgetc'))
M('11 word swapped signed', 'C01', ('io.c', '*value = (readWord & 0xff) << 8 | (readWord & 0xff00) >> 8;', '*value = readWord << 8 | readWord >> 8;'))
M('11 long swapped signed', 'C01', ('io.c', '''        *value = (readValue & 0xff) << 24 | (readValue & 0xff00) << 8 | (readValue & 0xff0000) >> 8 | (readValue & 0xff000000) >> 24;
#endif
        return TRUE;
    }
    else
    {
        IFF_readError(chunkId, attributeName);
        return FALSE;
    }
}

IFF_Bool IFF_writeLong(''', '''        *value = (readValue & 0xff) << 24 | (readValue & 0xff00) << 8 | (readValue & 0xff0000) >> 8 | readValue >> 24;
#endif
        return TRUE;
    }
    else
    {
        IFF_readError(chunkId, attributeName);
        return FALSE;
    }
}

IFF_Bool IFF_writeLong('''))
M('11 merge grows in steps', 'C10', ('form.c', '''    result = (IFF_Form**)realloc(target, newLength * sizeof(IFF_Form*));
''', '''    /* Grow in steps of 8 */
    if(target != NULL && *targetLength % 8 != 0)
        result = target;
    else
        result = (IFF_Form**)realloc(target, (*targetLength + (sourceLength + 7) / 8 * 8) * sizeof(IFF_Form*));
'''))
M('11 retrieval grows in steps', 'C08', ('form.c', '''            IFF_Chunk **newResult = (IFF_Chunk**)realloc(result, (*chunksLength + 1) * sizeof(IFF_Chunk*));
''', '''            IFF_Chunk **newResult = result;

            if((*chunksLength & (*chunksLength + 1)) == 0)
                newResult = (IFF_Chunk**)realloc(result, (*chunksLength * 2 + 1) * sizeof(IFF_Chunk*));
'''), ('form.c', '''                free(result);
                *chunksLength = 0;''', '''                *chunksLength = 0;'''))
M('11 contents type when pre-set', 'C19', ('cat.c', '        if(cat->chunkLength == 1)\n', '        if(cat->chunkLength == 1 && cat->contentsType == IFF_ID_JJJJ)\n'))
M('11 check skips properties of JJJJ', 'C15', ('list.c', '''        if(!IFF_checkChunk(propChunk,''', '''        if((list->contentsType == IFF_ID_JJJJ || list->prop[i]->formType == list->contentsType) && !IFF_checkChunk(propChunk,'''))
M('11 diagnostics limited', 'C34', ('error.c', '''    va_list ap;

    va_start''', '''    va_list ap;

    if(formatString[0] == 'C' && formatString[1] == 'a')
        return;

    va_start'''))
M('11 write without room ok', 'C04', ('io.c', '''        IFF_Bool status = emptyData != NULL && fwrite(''', '''        IFF_Bool status = emptyData == NULL ? bytesToSkip > 0x10000000 : fwrite('''))
M('11 trailing contents refused late', 'C08', ('iff.c', '''        IFF_error("WARNING: Trailing IFF contents found: %d!\\n", byte);
''', '''    {
        IFF_error("WARNING: Trailing IFF contents found: %d!\\n", byte);

        if(byte == 0x1a && chunk->chunkSize == 0)
            return NULL;
    }
'''))
# refactorings
R('11 form type via ctype', ('form.c', '#include "id.h"', '#include <ctype.h>\n#include "id.h"'), ('form.c', '''if(!(formType2[i] >= 'A' && formType2[i] <= 'Z') && !(formType2[i] >= '0' && formType2[i] <= '9') && formType2[i] != ' ')''', '''if(formType2[i] != ' ' && (islower((unsigned char)formType2[i]) || ispunct((unsigned char)formType2[i])))'''))
R('11 unsigned word swap short', ('io.c', '*value = (readUWord & 0xff) << 8 | (readUWord & 0xff00) >> 8;', '*value = (IFF_UWord)(readUWord << 8 | readUWord >> 8);'), ('io.c', 'IFF_UWord writeUWord = (value & 0xff) << 8 | (value & 0xff00) >> 8;', 'IFF_UWord writeUWord = (IFF_UWord)(value >> 8 | value << 8);'))
R('11 signed through unsigned', ('io.c', '''    IFF_Long readValue;

    if(fread(&readValue, sizeof(IFF_Long), 1, file) == 1)
    {
#if IFF_BIG_ENDIAN == 1
        *value = readValue;
#else
        /* Byte swap it */
        *value = (readValue & 0xff) << 24 | (readValue & 0xff00) << 8 | (readValue & 0xff0000) >> 8 | (readValue & 0xff000000) >> 24;
#endif
        return TRUE;
    }
    else
    {
        IFF_readError(chunkId, attributeName);
        return FALSE;
    }''', '''    IFF_ULong readValue;

    if(!IFF_readULong(file, &readValue, chunkId, attributeName))
        return FALSE;

    *value = (IFF_Long)readValue;
    return TRUE;'''))
R('11 read file in one expression', ('iff.c', '''    FILE *file = fopen(filename, "rb");

    /* Open the IFF file */
    if(file == NULL)
    {
        IFF_error("ERROR: cannot open file: %s\\n", filename);
        return NULL;
    }

    /* Parse the main chunk */
    chunk = IFF_readFd(file, chunkRegistry);

    /* Close the file */
    fclose(file);

    /* Return the chunk */
    return chunk;''', '''    FILE *file;

    if((file = fopen(filename, "rb")) != NULL)
    {
        chunk = IFF_readFd(file, chunkRegistry);
        fclose(file);
    }
    else
    {
        chunk = NULL;
        IFF_error("ERROR: cannot open file: %s\\n", filename);
    }

    return chunk;'''))
R('11 searching list iteratively', ('form.c', '''    IFF_Group *parent = chunk->parent;

    if(parent == NULL)
        return NULL;
    else
    {
        if(parent->chunkId == IFF_ID_LIST)
            return (IFF_List*)parent;
        else
            return searchList((IFF_Chunk*)parent);
    }''', '''    const IFF_Group *parent;

    for(parent = chunk->parent; parent != NULL && parent->chunkId != IFF_ID_LIST; parent = parent->parent)
        ;

    return (IFF_List*)parent;'''))
R('11 property search by loop', ('form.c', '''    IFF_List *list = searchList(chunk);

    if(list == NULL)
        return NULL; /* If the chunk is not (indirectly) in a list, we have no shared properties at all */
    else
    {
        /* Try requesting the PROP chunk for the given form type */
        IFF_Prop *prop = IFF_getPropFromList(list, formType);

        if(prop == NULL)
            return searchProperty((IFF_Chunk*)list, formType, chunkId); /* If we can't find a shared property chunk with the given form type, try searching for a list higher in the hierarchy */
        else
        {
            /* Try requesting the chunk from the shared property chunk */
            IFF_Chunk *chunk = IFF_getChunkFromProp(prop, chunkId);

            if(chunk == NULL)
                return searchProperty((IFF_Chunk*)list, formType, chunkId); /* If the requested chunk is not in the PROP chunk, try searching for a list higher in the hierarchy */
            else
                return chunk; /* We have found the requested shared property chunk */
        }
    }''', '''    IFF_List *list;

    while((list = searchList(chunk)) != NULL)
    {
        IFF_Prop *prop = IFF_getPropFromList(list, formType);
        IFF_Chunk *found = prop == NULL ? NULL : IFF_getChunkFromProp(prop, chunkId);

        if(found != NULL)
            return found;

        chunk = (const IFF_Chunk*)list;
    }

    return NULL;'''))
R('11 size accumulation helper', ('group.c', '''IFF_Long IFF_incrementChunkSize(const IFF_Long chunkSize, const IFF_Chunk *chunk)
{
    IFF_Long returnValue = chunkSize + IFF_ID_SIZE + sizeof(IFF_Long) + chunk->chunkSize;

    /* If the size of the nested chunk size is odd, we have to count the padding byte as well */
    if(chunk->chunkSize % 2 != 0)
        returnValue++;

    return returnValue;
}''', '''static IFF_Long paddedSize(const IFF_Chunk *chunk)
{
    return chunk->chunkSize + (chunk->chunkSize % 2 != 0);
}

IFF_Long IFF_incrementChunkSize(const IFF_Long chunkSize, const IFF_Chunk *chunk)
{
    return chunkSize + (IFF_ID_SIZE + sizeof(IFF_Long)) + paddedSize(chunk);
}'''))
R('11 group growth helper', ('group.c', '''IFF_Bool IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk)
{
    IFF_Chunk **newChunk = (IFF_Chunk**)realloc(group->chunk, (group->chunkLength + 1) * sizeof(IFF_Chunk*));

    if(newChunk == NULL)
        return FALSE;

    group->chunk = newChunk;
    group->chunk[group->chunkLength] = chunk;
    group->chunkLength++;
    chunk->parent = group;

    return TRUE;
}''', '''static IFF_Chunk **growMembers(IFF_Chunk **members, const unsigned int length)
{
    return (IFF_Chunk**)realloc(members, length * sizeof(*members));
}

IFF_Bool IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk)
{
    const unsigned int last = group->chunkLength;
    IFF_Chunk **members = growMembers(group->chunk, last + 1);

    if(members != NULL)
    {
        members[last] = chunk;
        chunk->parent = group;
        group->chunk = members;
        group->chunkLength = last + 1;
    }

    return members != NULL;
}'''))
R('11 printing raw in rows', ('rawchunk.c', '''    for(i = 0; i < rawChunk->chunkSize; i++)
    {
        if(i > 0 && i % 10 == 0)
        {
            printf("\\n");
            IFF_printIndent(stdout, indentLevel + 1, "");
        }

        byte = rawChunk->chunkData[i];

        /* Print extra 0 for small numbers */
        if(byte <= 0xf)
            printf("0");

        printf("%x ", byte);
    }''', '''    for(i = 0; i < rawChunk->chunkSize; i++)
    {
        byte = rawChunk->chunkData[i];

        printf("%02x ", (unsigned int)byte);

        if(i % 10 == 9 && i + 1 < rawChunk->chunkSize)
        {
            putchar('\\n');
            IFF_printIndent(stdout, indentLevel + 1, "");
        }
    }'''))
R('11 join in helper', ('iffjoin/join.c', '''int IFF_join(''', '''static IFF_Chunk *readValid(const char *filename)
{
    IFF_Chunk *chunk = IFF_readFile(filename, NULL);

    if(chunk != NULL && !IFF_check(chunk, NULL))
    {
        IFF_free(chunk, NULL);
        chunk = NULL;
    }

    return chunk;
}

int IFF_join('''), ('iffjoin/join.c', '''        IFF_Chunk *chunk = IFF_readFile(inputFilenames[i], NULL);

        /* Check whether the IFF file is valid */
        if(chunk == NULL || !IFF_check(chunk, NULL)
            || !''', '''        IFF_Chunk *chunk = readValid(inputFilenames[i]);

        if(chunk == NULL || !'''))
