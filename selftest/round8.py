# eighth round: plausible features and optimisations with a flaw, and further rewrites that keep the behaviour
M('8 long by division', 'C01', ('io.c', '''    IFF_Long writeValue = (value & 0xff) << 24 | (value & 0xff00) << 8 | (value & 0xff0000) >> 8 | (value & 0xff000000) >> 24;''',
  '''    IFF_UByte bytes[4];
    IFF_Long writeValue;
    bytes[0] = value / 0x1000000;
    bytes[1] = value / 0x10000;
    bytes[2] = value / 0x100;
    bytes[3] = value;
    memcpy(&writeValue, bytes, 4);'''), ('io.c', '#include <stdlib.h>', '#include <stdlib.h>\n#include <string.h>'))
M('8 endianness by ifdef', 'C01', ('io.c', '''#if IFF_BIG_ENDIAN == 1
    IFF_Word writeWord = value;''', '''#ifdef IFF_BIG_ENDIAN
    IFF_Word writeWord = value;'''))
M('8 word swap sign', 'C01', ('io.c', '        *value = (readWord & 0xff) << 8 | (readWord & 0xff00) >> 8;', '        *value = readWord << 8 | readWord >> 8;'))
R('8 uword swap without masks', ('io.c', '        *value = (readUWord & 0xff) << 8 | (readUWord & 0xff00) >> 8;', '        *value = readUWord << 8 | readUWord >> 8;'))
M('8 removes a partial file', 'C04', ('iff.c', '''        status = FALSE;
    }

    return status;''', '''        status = FALSE;
    }

    /* Do not leave an incomplete file behind */
    if(!status)
        status = remove(filename) == 0;

    return status;'''))
R('8 removes a partial file ok', ('iff.c', '''        status = FALSE;
    }

    return status;''', '''        status = FALSE;
    }

    /* Do not leave an incomplete file behind */
    if(!status)
        remove(filename);

    return status;'''))
M('8 stdout error without flush', 'C04', ('iff.c', 'if(fflush(stdout) != 0)', 'if(ferror(stdout))'))
M('8 write status overwritten by close', 'C04', ('iff.c', '''    if(fclose(file) != 0)
    {
        IFF_error("ERROR: cannot write file: %s\\n", filename);
        status = FALSE;
    }
''', '''    if((status = fclose(file) == 0) == FALSE)
        IFF_error("ERROR: cannot write file: %s\\n", filename);
'''))
M('8 empty file gives empty cat', 'C05', ('iff.c', '''    if(chunk == NULL)
    {
        IFF_error("ERROR: cannot open main chunk!\\n");
        return NULL;''', '''    if(chunk == NULL)
    {
        if(feof(file))
            return (IFF_Chunk*)IFF_createEmptyCAT();

        IFF_error("ERROR: cannot open main chunk!\\n");
        return NULL;'''))
M('8 filler chunks dropped', 'C06', ('group.c', '''        /* Attach chunk to the group */
        if(!IFF_attachToGroup(group, chunk))
        {
            IFF_freeChunk(chunk, group->groupType, chunkRegistry);
            return FALSE;
        }

        /* Increase the bytes processed counter */
        *bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, chunk);''', '''        /* Increase the bytes processed counter */
        *bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, chunk);

        /* Filler chunks carry no information */
        if(chunk->chunkId == IFF_MAKEID(' ', ' ', ' ', ' '))
        {
            IFF_freeChunk(chunk, group->groupType, chunkRegistry);
            continue;
        }

        /* Attach chunk to the group */
        if(!IFF_attachToGroup(group, chunk))
        {
            IFF_freeChunk(chunk, group->groupType, chunkRegistry);
            return FALSE;
        }'''))
M('8 filler chunks not written', 'C06', ('group.c', '''    for(i = 0; i < group->chunkLength; i++)
    {
        if(!IFF_writeChunk(file,''', '''    for(i = 0; i < group->chunkLength; i++)
    {
        if(group->chunk[i]->chunkId == IFF_MAKEID(' ', ' ', ' ', ' '))
            continue;

        if(!IFF_writeChunk(file,'''))
M('8 prop counted without header', 'C06', ('list.c', '''        *bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, (IFF_Chunk*)list->prop[i]);
    }

    return TRUE;
}

IFF_Bool IFF_writeList''', '''        *bytesProcessed += list->prop[i]->chunkSize + list->prop[i]->chunkSize % 2;
    }

    return TRUE;
}

IFF_Bool IFF_writeList'''))
M('8 fit by remaining unsigned', 'C07', ('field.c', 'return chunkSize < 0 || (size_t)chunkSize < fieldSize || bytesProcessed > chunkSize - (IFF_Long)fieldSize;', 'return chunkSize < 0 || (size_t)(chunkSize - bytesProcessed) < fieldSize;'))
R('8 fit by remaining signed', ('field.c', 'return chunkSize < 0 || (size_t)chunkSize < fieldSize || bytesProcessed > chunkSize - (IFF_Long)fieldSize;', 'return (long long)chunkSize - bytesProcessed < (long long)fieldSize;'))
M('8 join adds before checking', 'C08', ('iffjoin/join.c', '''        if(chunk == NULL || !IFF_check(chunk, NULL)
            || !IFF_addToCATAndUpdateContentsType(cat, chunk)) /* Add the input IFF chunk to the concatenation */''', '''        if(chunk == NULL || !IFF_addToCATAndUpdateContentsType(cat, chunk) /* Add the input IFF chunk to the concatenation */
            || !IFF_check(chunk, NULL))'''))
M('8 props freed without their struct', 'C09', ('list.c', '''        IFF_freeChunk((IFF_Chunk*)list->prop[i], list->contentsType, chunkRegistry);
}''', '''        IFF_freeProp((IFF_Chunk*)list->prop[i], chunkRegistry);
}'''))
M('8 raw rows unbounded', 'C10', ('rawchunk.c', '''    for(i = 0; i < rawChunk->chunkSize; i++)
    {
        if(i > 0 && i % 10 == 0)
        {
            printf("\\n");
            IFF_printIndent(stdout, indentLevel + 1, "");
        }

        byte = rawChunk->chunkData[i];

        /* Print extra 0 for small numbers */
        if(byte <= 0xf)
            printf("0");

        printf("%x ", byte);
    }
''', '''    for(i = 0; i < rawChunk->chunkSize; i += 10)
    {
        unsigned int j;

        if(i > 0)
        {
            printf("\\n");
            IFF_printIndent(stdout, indentLevel + 1, "");
        }

        for(j = 0; j < 10; j++)
        {
            byte = rawChunk->chunkData[i + j];
            printf("%02x ", byte);
        }
    }
'''))
M('8 form types until zero', 'C10 C20', ('form.c', '    for(i = 0; i < formTypesLength; i++)\n    {\n        const IFF_ID formType = formTypes[i];', '    for(i = 0; formTypes[i] != 0; i++)\n    {\n        const IFF_ID formType = formTypes[i];'))
M('8 lookup guard by last entry', 'C10', ('chunkregistry.c', '''        result = (IFF_ChunkType*)bsearch''', '''        if(chunkId > chunkTypesNode->chunkTypes[chunkTypesNode->chunkTypesLength - 1].chunkId)
            return getChunkType(chunkId, chunkTypesNode->parent);

        result = (IFF_ChunkType*)bsearch'''))
M('8 lookup guard drops parent', 'C12', ('chunkregistry.c', '''        result = (IFF_ChunkType*)bsearch''', '''        if(chunkTypesNode->chunkTypesLength > 0 && chunkId > chunkTypesNode->chunkTypes[chunkTypesNode->chunkTypesLength - 1].chunkId)
            return NULL;

        result = (IFF_ChunkType*)bsearch'''))
R('8 lookup guard ok', ('chunkregistry.c', '''        result = (IFF_ChunkType*)bsearch''', '''        if(chunkTypesNode->chunkTypesLength > 0 && chunkId > chunkTypesNode->chunkTypes[chunkTypesNode->chunkTypesLength - 1].chunkId)
            return getChunkType(chunkId, chunkTypesNode->parent);

        result = (IFF_ChunkType*)bsearch'''))
M('8 only leading space tested', 'C14', ('id.c', '''    for(i = 0; i < IFF_ID_SIZE - 1; i++)
    {
        if(id2[i] == ' ' && id2[i + 1] != ' ')
        {
            IFF_error("Spaces may not precede an ID!\\n");
            return FALSE;
        }
    }
''', '''    if(id2[0] == ' ' && (id2[1] != ' ' || id2[2] != ' ' || id2[3] != ' '))
    {
        IFF_error("Spaces may not precede an ID!\\n");
        return FALSE;
    }
'''))
M('8 check sum in a word', 'C15', ('group.c', '''    unsigned int i;
    IFF_Long chunkSize = 0;

    for(i = 0; i < group->chunkLength; i++)
    {
        IFF_Chunk *subChunk''', '''    unsigned int i;
    IFF_UWord chunkSize = 0;

    for(i = 0; i < group->chunkLength; i++)
    {
        IFF_Chunk *subChunk'''))
M('8 check filler chunks ignored', 'C15', ('group.c', '''        IFF_Chunk *subChunk = group->chunk[i];
''', '''        IFF_Chunk *subChunk = group->chunk[i];

        if(subChunk->chunkId == IFF_MAKEID(' ', ' ', ' ', ' '))
            continue;
'''))
M('8 check context of the member', 'C13', ('group.c', 'if(!IFF_checkChunk(subChunk, group->groupType, chunkRegistry))', 'if(!IFF_checkChunk(subChunk, subChunk->chunkId == IFF_ID_PROP ? 0 : subChunk->parent->groupType, chunkRegistry))'))
M('8 compare first page', 'C16', ('rawchunk.c', '    return memcmp(rawChunk1->chunkData, rawChunk2->chunkData, rawChunk1->chunkSize) == 0;', '    return memcmp(rawChunk1->chunkData, rawChunk2->chunkData, rawChunk1->chunkSize > 4096 ? 4096 : rawChunk1->chunkSize) == 0;'))
M('8 compare props only if both have some', 'C16', ('list.c', '    if(list1->propLength == list2->propLength)\n', '    if(list1->propLength == 0 || list2->propLength == 0)\n        return TRUE;\n    else if(list1->propLength == list2->propLength)\n'))
M('8 compare hash of payload', 'C16', ('rawchunk.c', '    return memcmp(rawChunk1->chunkData, rawChunk2->chunkData, rawChunk1->chunkSize) == 0;', '''    IFF_ULong hash1 = 0, hash2 = 0;
    IFF_Long i;

    for(i = 0; i < rawChunk1->chunkSize; i++)
    {
        hash1 = hash1 * 31 + rawChunk1->chunkData[i];
        hash2 = hash2 * 31 + rawChunk2->chunkData[i];
    }

    return hash1 == hash2;'''))
R('8 same object is equal', ('rawchunk.c', '    return memcmp(rawChunk1->chunkData, rawChunk2->chunkData, rawChunk1->chunkSize) == 0;', '    return rawChunk1 == rawChunk2 || memcmp(rawChunk1->chunkData, rawChunk2->chunkData, rawChunk1->chunkSize) == 0;'))
R('8 same payload is equal', ('rawchunk.c', '    return memcmp(rawChunk1->chunkData, rawChunk2->chunkData, rawChunk1->chunkSize) == 0;', '    return rawChunk1->chunkData == rawChunk2->chunkData || memcmp(rawChunk1->chunkData, rawChunk2->chunkData, rawChunk1->chunkSize) == 0;'))
M('8 write file updates sizes', 'C17', ('iff.c', '    status = IFF_writeFd(file, chunk, chunkRegistry);', '    IFF_updateChunkSizes((IFF_Chunk*)chunk);\n    status = IFF_writeFd(file, chunk, chunkRegistry);'), ('iff.c', '#include "util.h"', '#include "util.h"\n#include "group.h"'))
M('8 print normalises text', 'C17', ('rawchunk.c', '        printf("%c", rawChunk->chunkData[i]);', '''    {
        if(rawChunk->chunkData[i] == '\\r')
            rawChunk->chunkData[i] = '\\n';

        printf("%c", rawChunk->chunkData[i]);
    }'''))
M('8 search caches contents type', 'C17', ('cat.c', '    return IFF_searchFormsInGroup((IFF_Group*)cat, formTypes, formTypesLength, formsLength);', '''    if(cat->contentsType == 0 && formTypesLength == 1)
        cat->contentsType = formTypes[0];

    return IFF_searchFormsInGroup((IFF_Group*)cat, formTypes, formTypesLength, formsLength);'''))
M('8 contents type from last two', 'C19', ('cat.c', '''        else if(cat->contentsType != IFF_ID_JJJJ && cat->contentsType != group->groupType)
            cat->contentsType = IFF_ID_JJJJ;''', '''        else
        {
            IFF_Group *previous = (IFF_Group*)cat->chunk[cat->chunkLength - 2];
            cat->contentsType = previous->groupType == group->groupType ? group->groupType : IFF_ID_JJJJ;
        }'''))
M('8 search depth limited', 'C20', ('group.c', '''IFF_Form **IFF_searchFormsFromArray(IFF_Chunk *chunk, const IFF_ID *formTypes, const unsigned int formTypesLength, unsigned int *formsLength)
{
''', '''IFF_Form **IFF_searchFormsFromArray(IFF_Chunk *chunk, const IFF_ID *formTypes, const unsigned int formTypesLength, unsigned int *formsLength)
{
    unsigned int depth = 0;
    IFF_Group *ancestor;

    for(ancestor = chunk->parent; ancestor != NULL; ancestor = ancestor->parent)
        depth++;

    if(depth > 16)
    {
        *formsLength = 0;
        return NULL;
    }

'''))
M('8 search skips typed containers', 'C20', ('cat.c', '    return IFF_searchFormsInGroup((IFF_Group*)cat, formTypes, formTypesLength, formsLength);', '''    /* A concatenation of another type does not have to be searched */
    if(cat->contentsType != IFF_ID_JJJJ && formTypesLength == 1 && cat->contentsType != formTypes[0])
    {
        *formsLength = 0;
        return NULL;
    }

    return IFF_searchFormsInGroup((IFF_Group*)cat, formTypes, formTypesLength, formsLength);'''))
M('8 property only for members', 'C21', ('form.c', '        return searchProperty((IFF_Chunk*)form, form->formType, chunkId);', '        return form->parent != NULL && form->parent->chunkId == IFF_ID_LIST ? searchProperty((IFF_Chunk*)form, form->formType, chunkId) : NULL;'))
M('8 property stops at a form', 'C21', ('form.c', '''        if(parent->chunkId == IFF_ID_LIST)
            return (IFF_List*)parent;
        else''', '''        if(parent->chunkId == IFF_ID_LIST)
            return (IFF_List*)parent;
        else if(parent->chunkId == IFF_ID_FORM)
            return NULL;
        else'''))
M('8 flushes every stream', 'C22', ('iff.c', 'if(fflush(stdout) != 0)', 'if(fflush(NULL) != 0)'))
M('8 print to stdout after write', 'C22', ('iff.c', '''    /* Closing delivers the buffered data, which may fail as well */
    if(fclose(file) != 0)''', '''    if(status)
        fflush(stdout), printf("%s written\\n", filename);

    /* Closing delivers the buffered data, which may fail as well */
    if(fclose(file) != 0)'''))
M('8 file name as format', 'C23', ('iff.c', '        IFF_error("ERROR: cannot write file: %s\\n", filename);', '        IFF_error("ERROR: cannot write file: ");\n        IFF_error(filename);'))
M('8 string for character', 'C23', ('id.c', '''            IFF_error("Illegal character: '%c' in ID!\\n", id2[i]);''', '''            IFF_error("Illegal character: '%s' in ID!\\n", id2);'''))
R('8 callback in a local', ('error.c', '''    va_start(ap, formatString);
    IFF_errorCallback(formatString, ap);''', '''    void (*callback) (const char *formatString, va_list ap) = IFF_errorCallback;

    va_start(ap, formatString);
    callback(formatString, ap);'''))
R('8 static zero block', ('io.c', '''        size_t bytesToSkip = chunkSize - bytesProcessed;
        IFF_UByte *emptyData = (IFF_UByte*)calloc(bytesToSkip, sizeof(IFF_UByte));
        IFF_Bool status = emptyData != NULL && fwrite(emptyData, sizeof(IFF_UByte), bytesToSkip, file) == bytesToSkip;
''', '''        static const IFF_UByte zeros[64] = {0};
        size_t bytesToSkip = chunkSize - bytesProcessed;
        size_t left = bytesToSkip;
        IFF_Bool status = TRUE;

        while(status && left > 0)
        {
            size_t count = left < sizeof(zeros) ? left : sizeof(zeros);
            status = fwrite(zeros, sizeof(IFF_UByte), count, file) == count;
            left -= count;
        }
'''), ('io.c', '        free(emptyData);\n        return status;', '        return status;'))
M('8 join keeps going on bad check', 'C25', ('iffjoin/join.c', '''        if(chunk == NULL || !IFF_check(chunk, NULL)
            ||''', '''        if(chunk != NULL && !IFF_check(chunk, NULL) && inputFilenamesLength > 1)
        {
            IFF_free(chunk, NULL);
            status = 1;
            continue;
        }

        if(chunk == NULL
            ||'''))
M('8 join checks the whole', 'C25', ('iffjoin/join.c', 'if(chunk == NULL || !IFF_check(chunk, NULL)\n            ||', 'if(chunk == NULL\n            ||'), ('iffjoin/join.c', '    if(!IFF_write(outputFilename, (IFF_Chunk*)cat, NULL))', '    if(!IFF_write(outputFilename, (IFF_Chunk*)cat, NULL) || !IFF_check((IFF_Chunk*)cat, NULL))'))
M('8 join single input copied', 'C25', ('iffjoin/join.c', '    if(!IFF_write(outputFilename, (IFF_Chunk*)cat, NULL))', '    if(!IFF_write(outputFilename, inputFilenamesLength == 1 ? cat->chunk[0] : (IFF_Chunk*)cat, NULL))'))
M('8 pp stdin named dash', 'C26', ('iffpp/main.c', '    if(optind >= argc)', "    if(optind >= argc || argv[optind][0] == '-')"))
M('8 pp prints the checked part', 'C26', ('iffpp/pp.c', "if((options & IFFPP_DISABLE_CHECK) || IFF_check(chunk, NULL))", "if((options & IFFPP_DISABLE_CHECK) || IFF_check(chunk, NULL) || chunk->chunkSize == 0)"))
M('8 hex padded by space', 'C29', ('rawchunk.c', '''        /* Print extra 0 for small numbers */
        if(byte <= 0xf)
            printf("0");

        printf("%x ", byte);''', '''        printf("%2x ", byte);'''))
R('8 hex upper case', ('rawchunk.c', '''        /* Print extra 0 for small numbers */
        if(byte <= 0xf)
            printf("0");

        printf("%x ", byte);''', '''        printf("%02X ", byte);'''))
R('8 rows of sixteen', ('rawchunk.c', 'if(i > 0 && i % 10 == 0)', 'if(i > 0 && i % 16 == 0)'))
M('8 repeated rows elided', 'C29', ('rawchunk.c', '        byte = rawChunk->chunkData[i];\n', '''        byte = rawChunk->chunkData[i];

        if(i >= 10 && byte == 0 && rawChunk->chunkData[i - 10] == 0)
            continue;
'''))
M('8 text of 255', 'C30', ('rawchunk.c', '    size_t textLength = strlen(text);', '    size_t textLength = strlen(text) > 255 ? 255 : strlen(text);'))
M('8 raw read in fixed blocks', 'C30', ('rawchunk.c', '''    if(fread(rawChunk->chunkData, sizeof(IFF_UByte), rawChunk->chunkSize, file) < rawChunk->chunkSize)''', '''    IFF_Long i;
    size_t count = 0;

    for(i = 0; i < rawChunk->chunkSize; i += 4096)
        count += fread(rawChunk->chunkData + i, sizeof(IFF_UByte), 4096, file);

    if(count < rawChunk->chunkSize)'''))
M('8 raw read error only at end of file', 'C34', ('rawchunk.c', '''        IFF_error("Error reading raw chunk body of chunk: '");
        IFF_errorId(rawChunk->chunkId);
        IFF_error("'\\n");
        return FALSE;''', '''        if(feof(file))
        {
            IFF_error("Error reading raw chunk body of chunk: '");
            IFF_errorId(rawChunk->chunkId);
            IFF_error("'\\n");
        }

        return FALSE;'''))
M('8 regular files only', 'C36', ('iff.c', '''    /* Parse the main chunk */
    chunk = IFF_readFd(file, chunkRegistry);''', '''    {
        struct stat info;

        if(fstat(fileno(file), &info) != 0 || !S_ISREG(info.st_mode))
        {
            IFF_error("ERROR: not a regular file: %s\\n", filename);
            fclose(file);
            return NULL;
        }
    }

    /* Parse the main chunk */
    chunk = IFF_readFd(file, chunkRegistry);'''), ('iff.c', '#include <stdio.h>', '#define _POSIX_C_SOURCE 200809L\n#include <stdio.h>\n#include <sys/stat.h>'))
M('8 id text misses a character', 'C37', ('id.c', '    id2[3] = id & 0xff;\n', '    if((id & 0xff) != \' \')\n        id2[3] = id & 0xff;\n'))
M('8 size set before growing', 'C38', ('group.c', '''    if(!IFF_attachToGroup(group, chunk))
        return FALSE;

    group->chunkSize = chunkSize;
    return TRUE;''', '''    group->chunkSize = chunkSize;
    return IFF_attachToGroup(group, chunk);'''))
M('8 adding moves between groups', 'C38', ('group.c', '''    if(!IFF_attachToGroup(group, chunk))
        return FALSE;

    group->chunkSize''', '''    if(chunk->parent != NULL && chunk->parent != group)
        chunk->parent = NULL;

    if(!IFF_attachToGroup(group, chunk))
        return FALSE;

    group->chunkSize'''))
R('8 indent by width', ('util.c', '''    for(i = 0; i < indentLevel; i++)
      fprintf(file, "  ");
''', '''    i = indentLevel * 2;

    if(i > 0)
      fprintf(file, "%*s", (int)i, "");
'''))
R('8 indent by fputs', ('util.c', '      fprintf(file, "  ");', '      fputs("  ", file);'))
R('8 freeing arrays by a helper', ('list.c', '''static void freeListPropChunks(IFF_List *list, const IFF_ChunkRegistry *chunkRegistry)
{
    unsigned int i;

    for(i = 0; i < list->propLength; i++)
        IFF_freeChunk((IFF_Chunk*)list->prop[i], list->contentsType, chunkRegistry);
}''', '''static void freeChunks(IFF_Chunk **chunks, unsigned int length, const IFF_ID groupType, const IFF_ChunkRegistry *chunkRegistry)
{
    while(length > 0)
    {
        IFF_freeChunk(*chunks, groupType, chunkRegistry);
        chunks++;
        length--;
    }
}'''), ('list.c', '    freeListPropChunks(list, chunkRegistry);\n', '    freeChunks((IFF_Chunk**)list->prop, list->propLength, list->contentsType, chunkRegistry);\n'))
R('8 lookups by a helper', ('chunkregistry.c', '''        return (IFF_FormChunkTypes*)bsearch(&key, chunkRegistry->formChunkTypes, chunkRegistry->formChunkTypesLength, sizeof(IFF_FormChunkTypes), &compareFormChunkTypes);''', '''        return (IFF_FormChunkTypes*)lookup(&key, chunkRegistry->formChunkTypes, chunkRegistry->formChunkTypesLength, sizeof(IFF_FormChunkTypes), &compareFormChunkTypes);'''),
  ('chunkregistry.c', '''        result = (IFF_ChunkType*)bsearch(&key''', '''        result = (IFF_ChunkType*)lookup(&key'''),
  ('chunkregistry.c', 'static int compareFormChunkTypes(', '''static void *lookup(const void *key, const void *base, size_t length, size_t size, int (*compare) (const void *a, const void *b))
{
    if(length == 0)
        return NULL;

    return bsearch(key, base, length, size, compare);
}

static int compareFormChunkTypes('''))
R('8 compare with a flag', ('chunk.c', '''    if(chunk1->chunkId == chunk2->chunkId && chunk1->chunkSize == chunk2->chunkSize)
    {
        IFF_ChunkType *chunkType = IFF_findChunkType(chunkRegistry, formType, chunk1->chunkId);
        return chunkType->compareExtensionChunk(chunk1, chunk2, chunkRegistry);
    }
    else
        return FALSE;''', '''    IFF_Bool equal = chunk1->chunkId == chunk2->chunkId;
    equal = equal && chunk1->chunkSize == chunk2->chunkSize;

    if(equal)
    {
        const IFF_ChunkType *chunkType = IFF_findChunkType(chunkRegistry, formType, chunk2->chunkId);
        equal = chunkType->compareExtensionChunk(chunk1, chunk2, chunkRegistry);
    }

    return equal;'''))
R('8 options by if', ('iffjoin/main.c', '''        switch(c)
        {
            case 'o':
                outputFilename = optarg;
                break;
            case 'h':
                printUsage(argv[0]);
                return 0;
            case '?':
                printUsage(argv[0]);
                return 1;
            case 'v':
                printVersion(argv[0]);
                return 0;
        }''', '''        if(c == 'o')
            outputFilename = optarg;
        else if(c == 'v')
        {
            printVersion(argv[0]);
            return 0;
        }
        else if(c == 'h' || c == '?')
        {
            printUsage(argv[0]);
            return c == '?';
        }'''))
R('8 cat check without repetition', ('cat.c', '''        if(checkValidCATSubChunkId(subChunk->chunkId))
        {
            IFF_Group *group = (IFF_Group*)subChunk;

            if(group->groupType != cat->contentsType)
            {
                IFF_error("Sub form does not match contentsType of the CAT!\\n");
                return FALSE;
            }
        }
    }''', '''        if(((const IFF_Group*)subChunk)->groupType != cat->contentsType)
        {
            IFF_error("Sub form does not match contentsType of the CAT!\\n");
            return FALSE;
        }
    }'''))
R('8 scalar read helper', ('io.c', '''IFF_Bool IFF_readUByte(''', '''static IFF_Bool readBytes(FILE *file, void *buffer, size_t size, const IFF_ID chunkId, const char *attributeName)
{
    if(fread(buffer, size, 1, file) == 1)
        return TRUE;

    IFF_readError(chunkId, attributeName);
    return FALSE;
}

IFF_Bool IFF_readUByte('''), ('io.c', '''    if(fread(&readUWord, sizeof(IFF_UWord), 1, file) == 1)
    {
#if IFF_BIG_ENDIAN == 1
        *value = readUWord;
#else
        /* Byte swap it */
        *value = (readUWord & 0xff) << 8 | (readUWord & 0xff00) >> 8;
#endif

        return TRUE;
    }
    else
    {
        IFF_readError(chunkId, attributeName);
        return FALSE;
    }''', '''    if(!readBytes(file, &readUWord, sizeof(IFF_UWord), chunkId, attributeName))
        return FALSE;

#if IFF_BIG_ENDIAN == 1
    *value = readUWord;
#else
    /* Byte swap it */
    *value = (readUWord & 0xff) << 8 | (readUWord & 0xff00) >> 8;
#endif
    return TRUE;'''), ('io.c', '''    if(fread(&readValue, sizeof(IFF_Long), 1, file) == 1)
    {
#if IFF_BIG_ENDIAN == 1
        *value = readValue;
#else
        /* Byte swap it */
        *value = (readValue & 0xff) << 24 | (readValue & 0xff00) << 8 | (readValue & 0xff0000) >> 8 | (readValue & 0xff000000) >> 24;
#endif
        return TRUE;
    }
    else
    {
        IFF_readError(chunkId, attributeName);
        return FALSE;
    }''', '''    if(!readBytes(file, &readValue, sizeof(readValue), chunkId, attributeName))
        return FALSE;

#if IFF_BIG_ENDIAN == 1
    *value = readValue;
#else
    /* Byte swap it */
    *value = (readValue & 0xff) << 24 | (readValue & 0xff00) << 8 | (readValue & 0xff0000) >> 8 | (readValue & 0xff000000) >> 24;
#endif
    return TRUE;'''))
R('8 check size from the type on', ('group.c', '''    if((chunkSize = IFF_checkGroupSubChunks(group, subChunkCheck, chunkRegistry)) == -1)
        return FALSE;

    chunkSize += IFF_ID_SIZE;

    if(!IFF_checkGroupChunkSize(group, chunkSize))
        return FALSE;

    return TRUE;''', '''    chunkSize = IFF_checkGroupSubChunks(group, subChunkCheck, chunkRegistry);

    return chunkSize != -1 && IFF_checkGroupChunkSize(group, chunkSize + IFF_ID_SIZE);'''))
R('8 array reserved in list', ('list.c', '    IFF_Prop **newProp = (IFF_Prop**)realloc(list->prop, (list->propLength + 1) * sizeof(IFF_Prop*));\n\n    if(newProp == NULL)\n        return FALSE;\n\n    list->prop = newProp;\n    list->prop[list->propLength] = prop;\n    list->propLength++;\n', '''    unsigned int index = list->propLength;
    IFF_Prop **newProp = list->prop == NULL ? (IFF_Prop**)malloc(sizeof(IFF_Prop*)) : (IFF_Prop**)realloc(list->prop, (index + 1) * sizeof(IFF_Prop*));

    if(newProp == NULL)
        return FALSE;

    newProp[index] = prop;
    list->prop = newProp;
    list->propLength = index + 1;
'''))
R('8 form search first match break', ('form.c', '''    for(i = 0; i < formTypesLength; i++)
    {
        const IFF_ID formType = formTypes[i];

        if(form->formType == formType)
        {
            IFF_Form **forms = (IFF_Form**)malloc(sizeof(IFF_Form*));

            if(forms == NULL)
                *formsLength = 0;
            else
            {
                forms[0] = form;
                *formsLength = 1;
            }

            return forms;
        }
    }

    return IFF_searchFormsInGroup''', '''    for(i = 0; i < formTypesLength; i++)
    {
        if(form->formType == formTypes[i])
            break;
    }

    if(i < formTypesLength)
    {
        IFF_Form **forms = (IFF_Form**)malloc(sizeof(IFF_Form*));

        *formsLength = forms == NULL ? 0 : 1;

        if(forms != NULL)
            *forms = form;

        return forms;
    }

    return IFF_searchFormsInGroup'''))
R('8 search result freed when used', ('group.c', '''        forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);
        free(result);''', '''        if(result == NULL)
            continue;

        forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);
        free(result);'''))
R('8 update ancestors first reversed', ('group.c', '''void IFF_updateChunkSizes(IFF_Chunk *chunk)
{
    /* Check whether the given chunk is a group chunk and update the sizes */
    switch(chunk->chunkId)''', '''static void updateOne(IFF_Chunk *chunk)
{
    /* Check whether the given chunk is a group chunk and update the sizes */
    switch(chunk->chunkId)'''), ('group.c', '''    /* If the given type has a parent, recursively update these as well */
    if(chunk->parent != NULL)
        IFF_updateChunkSizes((IFF_Chunk*)chunk->parent);
}''', '''}

void IFF_updateChunkSizes(IFF_Chunk *chunk)
{
    updateOne(chunk);

    /* If the given type has a parent, update these as well */
    while(chunk->parent != NULL)
    {
        chunk = (IFF_Chunk*)chunk->parent;
        updateOne(chunk);
    }
}'''))
R('8 trailing test by feof', ('iff.c', '''    if((byte = fgetc(file)) != EOF)
        IFF_error("WARNING: Trailing IFF contents found: %d!\\n", byte);''', '''    byte = fgetc(file);

    if(!(byte < 0))
        IFF_error("WARNING: Trailing IFF contents found: %d!\\n", byte);'''))
R('8 group ids by a macro', ('iff.c', '''    if(chunk->chunkId != IFF_ID_FORM &&
       chunk->chunkId != IFF_ID_CAT &&
       chunk->chunkId != IFF_ID_LIST)
    {''', '''#define IS_MAIN(id) ((id) == IFF_ID_FORM || (id) == IFF_ID_CAT || (id) == IFF_ID_LIST)
    if(!IS_MAIN(chunk->chunkId))
    {'''))
R('8 hierarchy readers share', ('list.c', '''        if(chunk->chunkId == IFF_ID_PROP)
            status = addPropToList(list, (IFF_Prop*)chunk);
        else
            status = IFF_attachToGroup((IFF_Group*)list, chunk);

        if(!status)
        {''', '''        status = (chunk->chunkId == IFF_ID_PROP && addPropToList(list, (IFF_Prop*)chunk))
            || (chunk->chunkId != IFF_ID_PROP && IFF_attachToGroup((IFF_Group*)list, chunk));

        if(!status)
        {'''))
