# seventh round: rarely visited modules, rewrites with a flaw, optimisations that are wrong in a corner
def UL(kind, a, b):
    """the body of one field function"""
    return ('field.c', a, b)


M('7 fit trusts the sum', 'C07', ('field.c', 'return chunkSize < 0 || (size_t)chunkSize < fieldSize || bytesProcessed > chunkSize - (IFF_Long)fieldSize;', 'return (size_t)bytesProcessed + fieldSize > (size_t)chunkSize;'))
M('7 fit ignores exact end', 'C07', ('field.c', 'bytesProcessed > chunkSize - (IFF_Long)fieldSize;', 'bytesProcessed > chunkSize - (IFF_Long)fieldSize || (fieldSize == 2 && chunkSize - bytesProcessed == 2 && bytesProcessed > 0);'))
M('7 last as soon as full', 'C07', ('field.c', '''    else if(IFF_readUWord(file, value, chunk->chunkId, attributeName))
    {
        increaseBytesProcessed(bytesProcessed, fieldSize);
        return IFF_FIELD_MORE;''', '''    else if(IFF_readUWord(file, value, chunk->chunkId, attributeName))
    {
        increaseBytesProcessed(bytesProcessed, fieldSize);
        return *bytesProcessed == chunk->chunkSize ? IFF_FIELD_LAST : IFF_FIELD_MORE;'''))
M('7 count first', 'C07', ('field.c', '''    else if(IFF_writeULong(file, value, chunk->chunkId, attributeName))
    {
        increaseBytesProcessed(bytesProcessed, fieldSize);
        return IFF_FIELD_MORE;
    }
    else
        return IFF_FIELD_FAILURE;''', '''
    increaseBytesProcessed(bytesProcessed, fieldSize);
    return IFF_writeULong(file, value, chunk->chunkId, attributeName) ? IFF_FIELD_MORE : IFF_FIELD_FAILURE;'''))
M('7 empty table hides parent', 'C12', ('chunkregistry.c', '    if(chunkTypesNode == NULL)\n        return NULL;', '    if(chunkTypesNode == NULL || chunkTypesNode->chunkTypesLength == 0)\n        return NULL;'))
M('7 known form type skips global', 'C12', ('chunkregistry.c', '''        if(result == NULL)
            result = getChunkType(chunkId, chunkRegistry->globalChunkTypesNode);''', '''        else
            result = getChunkType(chunkId, chunkRegistry->globalChunkTypesNode);'''))
M('7 ids compared in memory order', 'C12', ('chunkregistry.c', '''    const IFF_ChunkType *l = (IFF_ChunkType*)a;
    const IFF_ChunkType *r = (IFF_ChunkType*)b;

    if(l->chunkId < r->chunkId)
        return -1;
    else if(l->chunkId > r->chunkId)
        return 1;
    else
        return 0;''', '''    const IFF_ChunkType *l = (IFF_ChunkType*)a;
    const IFF_ChunkType *r = (IFF_ChunkType*)b;

    return memcmp(&l->chunkId, &r->chunkId, sizeof(IFF_ID));'''), ('chunkregistry.c', '#include <stdlib.h>', '#include <stdlib.h>\n#include <string.h>'))
M('7 errors also to stderr', 'C22', ('error.c', '''    va_start(ap, formatString);
    IFF_errorCallback(formatString, ap);''', '''    if(formatString[0] == 'E' && formatString[1] == 'R')
        fputs("libiff: ", stderr);

    va_start(ap, formatString);
    IFF_errorCallback(formatString, ap);'''))
M('7 id message unterminated', 'C10 C23', ('error.c', '''    unsigned int i;
    IFF_ID2 id2;

    IFF_idToString(id, id2);

    for(i = 0; i < IFF_ID_SIZE; i++)
        IFF_error("%c", id2[i]);''', '''    IFF_ID2 id2;

    IFF_idToString(id, id2);
    IFF_error("%s", id2);'''))
M('7 attribute as format', 'C23', ('error.c', '''    IFF_error("Error reading '");
    IFF_errorId(chunkId);
    IFF_error("'.%s\\n", attributeName);''', '''    IFF_error("Error reading '");
    IFF_errorId(chunkId);
    IFF_error("'.");
    IFF_error(attributeName);
    IFF_error("\\n");'''))
M('7 indent limited', 'C29', ('util.c', 'for(i = 0; i < indentLevel; i++)', 'for(i = 0; i < indentLevel && i < 16; i++)'))
M('7 empty text keeps old', 'C30', ('rawchunk.c', '''    if(chunkData == NULL)
        return FALSE;

    memcpy(chunkData, text, textLength);''', '''    if(textLength == 0)
    {
        free(chunkData);
        return TRUE;
    }

    if(chunkData == NULL)
        return FALSE;

    memcpy(chunkData, text, textLength);'''))
M('7 payload compared as text', 'C16', ('rawchunk.c', 'return memcmp(rawChunk1->chunkData, rawChunk2->chunkData, rawChunk1->chunkSize) == 0;', 'return strncmp((char*)rawChunk1->chunkData, (char*)rawChunk2->chunkData, rawChunk1->chunkSize) == 0;'))
M('7 text printed as string', 'C29', ('rawchunk.c', '''    for(i = 0; i < rawChunk->chunkSize; i++)
        printf("%c", rawChunk->chunkData[i]);
''', '''    printf("%.*s", (int)rawChunk->chunkSize, (char*)rawChunk->chunkData);
'''), ('rawchunk.c', '''    IFF_Long i;

    IFF_printIndent(stdout, indentLevel, "text''', '''    IFF_printIndent(stdout, indentLevel, "text'''))
M('7 text skips control characters', 'C29', ('rawchunk.c', '        printf("%c", rawChunk->chunkData[i]);', '''    {
        if(rawChunk->chunkData[i] != '\\r')
            printf("%c", rawChunk->chunkData[i]);
    }'''))
M('7 raw count replaced', 'C30', ('rawchunk.c', '''    if(fread(rawChunk->chunkData, sizeof(IFF_UByte), rawChunk->chunkSize, file) < rawChunk->chunkSize)
    {
        IFF_error("Error reading raw chunk body of chunk: '");
        IFF_errorId(rawChunk->chunkId);
        IFF_error("'\\n");
        return FALSE;
    }
    else
    {
        *bytesProcessed = *bytesProcessed + rawChunk->chunkSize;''', '''    if(fread(rawChunk->chunkData, sizeof(IFF_UByte), rawChunk->chunkSize, file) < rawChunk->chunkSize)
    {
        IFF_error("Error reading raw chunk body of chunk: '");
        IFF_errorId(rawChunk->chunkId);
        IFF_error("'\\n");
        return FALSE;
    }
    else
    {
        *bytesProcessed = rawChunk->chunkSize;'''))
M('7 first result array handed on', 'C08 C20', ('form.c', '''    if(sourceLength == 0)
        return target;
''', '''    if(sourceLength == 0)
        return target;

    if(*targetLength == 0)
    {
        *targetLength = sourceLength;
        return source;
    }
'''))
M('7 list found from itself', 'C28', ('form.c', '''    IFF_Group *parent = chunk->parent;

    if(parent == NULL)
        return NULL;
    else
    {
        if(parent->chunkId == IFF_ID_LIST)
            return (IFF_List*)parent;
        else
            return searchList((IFF_Chunk*)parent);
    }''', '''    if(chunk->chunkId == IFF_ID_LIST)
        return (IFF_List*)chunk;
    else if(chunk->parent == NULL)
        return NULL;
    else
        return searchList((IFF_Chunk*)chunk->parent);'''))
M('7 result array grows too late', 'C10 C21', ('form.c', '''            IFF_Chunk **newResult = (IFF_Chunk**)realloc(result, (*chunksLength + 1) * sizeof(IFF_Chunk*));

            if(newResult == NULL)''', '''            IFF_Chunk **newResult = *chunksLength % 8 > 0 ? result : (IFF_Chunk**)realloc(result, (*chunksLength + 7) * sizeof(IFF_Chunk*));

            if(newResult == NULL)'''))
M('7 props before reset', 'C18', ('list.c', '''    unsigned int i;

    IFF_updateCATChunkSizes((IFF_CAT*)list);

    for(i = 0; i < list->propLength; i++)
        list->chunkSize = IFF_incrementChunkSize(list->chunkSize, (IFF_Chunk*)list->prop[i]);''', '''    unsigned int i;

    for(i = 0; i < list->propLength; i++)
        list->chunkSize = IFF_incrementChunkSize(list->chunkSize, (IFF_Chunk*)list->prop[i]);

    IFF_updateCATChunkSizes((IFF_CAT*)list);'''))
M('7 trailing contents refused', 'C05', ('iff.c', '''        IFF_error("WARNING: Trailing IFF contents found: %d!\\n", byte);
''', '''    {
        IFF_error("WARNING: Trailing IFF contents found: %d!\\n", byte);

        if(byte != 0)
        {
            IFF_freeChunk(chunk, 0, selectChunkRegistry(chunkRegistry));
            return NULL;
        }
    }
'''))
M('7 compare with its own type', 'C13', ('iff.c', 'return IFF_compareChunk(chunk1, chunk2, 0, selectChunkRegistry(chunkRegistry));', 'return IFF_compareChunk(chunk1, chunk2, chunk1->chunkId, selectChunkRegistry(chunkRegistry));'))
M('7 join skips repeated name', 'C25', ('iffjoin/join.c', '''        /* Open each input IFF file */
        IFF_Chunk *chunk = IFF_readFile(inputFilenames[i], NULL);
''', '''        IFF_Chunk *chunk;

        /* Nothing new in a repeated file */
        if(i > 0 && strcmp(inputFilenames[i], inputFilenames[i - 1]) == 0)
            continue;

        /* Open each input IFF file */
        chunk = IFF_readFile(inputFilenames[i], NULL);
'''), ('iffjoin/join.c', '#include <stdio.h>', '#include <stdio.h>\n#include <string.h>'))
M('7 join counts in a byte', 'C25', ('iffjoin/main.c', 'unsigned int inputFilenamesLength = argc - optind;', 'unsigned char inputFilenamesLength = argc - optind;'))
M('7 join limits the inputs', 'C25', ('iffjoin/main.c', 'unsigned int inputFilenamesLength = argc - optind;', 'unsigned int inputFilenamesLength = argc - optind > 1000 ? 1000 : argc - optind;'))
M('7 pad failure tolerated at top', 'C05', ('chunk.c', '''            || !IFF_readPaddingByte(file, chunkSize, chunk->chunkId))''', '''            || (!IFF_readPaddingByte(file, chunkSize, chunk->chunkId) && formType != 0))'''))
M('7 pad by processed bytes', 'C02', ('chunk.c', 'IFF_writePaddingByte(file, chunk->chunkSize, chunk->chunkId);', 'IFF_writePaddingByte(file, bytesProcessed, chunk->chunkId);'))
M('7 read pad by processed bytes', 'C03', ('chunk.c', 'IFF_readPaddingByte(file, chunkSize, chunk->chunkId))', 'IFF_readPaddingByte(file, bytesProcessed, chunk->chunkId))'))
M('7 release without context', 'C13', ('chunk.c', 'IFF_freeChunk(chunk, formType, chunkRegistry);\n            return NULL;', 'IFF_freeChunk(chunk, 0, chunkRegistry);\n            return NULL;'))
M('7 list struct one short', 'C10 C27', ('list.c', 'IFF_createChunk(IFF_ID_LIST, chunkSize, sizeof(IFF_List));', 'IFF_createChunk(IFF_ID_LIST, chunkSize, sizeof(IFF_List) - sizeof(unsigned int));'))
M('7 check repairs', 'C17', ('group.c', '''        IFF_error("Chunk size mismatch! ");''', '''        ((IFF_Group*)group)->chunkSize &= 0x7fffffff;
        IFF_error("Chunk size mismatch! ");'''))
M('7 capacity of four', 'C10 C19', ('group.c', 'IFF_Chunk **newChunk = (IFF_Chunk**)realloc(group->chunk, (group->chunkLength + 1) * sizeof(IFF_Chunk*));', 'IFF_Chunk **newChunk = group->chunkLength % 4 != 0 ? group->chunk : (IFF_Chunk**)realloc(group->chunk, (group->chunkLength + 3) * sizeof(IFF_Chunk*));'))
M('7 mismatch silent if larger', 'C34', ('group.c', '''        IFF_error("Chunk size mismatch! ");
        IFF_errorId(group->chunkId);
        IFF_error(" size: %d, while body has: %d\\n", group->chunkSize, chunkSize);
        return FALSE;''', '''        if(chunkSize < group->chunkSize)
        {
            IFF_error("Chunk size mismatch! ");
            IFF_errorId(group->chunkId);
            IFF_error(" size: %d, while body has: %d\\n", group->chunkSize, chunkSize);
        }

        return FALSE;'''))
M('7 mixed contents remark', 'C34', ('cat.c', '''    if(cat->contentsType != IFF_ID_JJJJ)
    {
        /* Check''', '''    if(cat->contentsType == IFF_ID_JJJJ && subChunk->chunkId == IFF_ID_LIST)
        IFF_error("NOTE: mixed contents\\n");

    if(cat->contentsType != IFF_ID_JJJJ)
    {
        /* Check'''))
M('7 update stops if unchanged', 'C18', ('group.c', '''void IFF_updateChunkSizes(IFF_Chunk *chunk)
{
''', '''void IFF_updateChunkSizes(IFF_Chunk *chunk)
{
    IFF_Long oldSize = chunk->chunkSize;

'''), ('group.c', '''    if(chunk->parent != NULL)
        IFF_updateChunkSizes((IFF_Chunk*)chunk->parent);''', '''    if(chunk->parent != NULL && chunk->chunkSize != oldSize)
        IFF_updateChunkSizes((IFF_Chunk*)chunk->parent);'''))
M('7 update stops at unchanged group', 'C18', ('group.c', '''void IFF_updateChunkSizes(IFF_Chunk *chunk)
{
''', '''void IFF_updateChunkSizes(IFF_Chunk *chunk)
{
    IFF_Long oldSize = chunk->chunkSize;

'''), ('group.c', '''    if(chunk->parent != NULL)
        IFF_updateChunkSizes((IFF_Chunk*)chunk->parent);''', '''    if(chunk->parent != NULL && (chunk->chunkSize != oldSize || chunk->chunkId == IFF_ID_FORM))
        IFF_updateChunkSizes((IFF_Chunk*)chunk->parent);'''))
M('7 update only direct parent', 'C18', ('group.c', '''    if(chunk->parent != NULL)
        IFF_updateChunkSizes((IFF_Chunk*)chunk->parent);''', '''    if(chunk->parent != NULL)
    {
        if(chunk->parent->chunkId == IFF_ID_PROP)
            IFF_updatePropChunkSizes((IFF_Prop*)chunk->parent);
        else
            IFF_updateChunkSizes((IFF_Chunk*)chunk->parent);
    }'''))
M('7 prop searched', 'C20', ('group.c', '''        case IFF_ID_LIST:
            return IFF_searchFormsInList((IFF_List*)chunk, formTypes, formTypesLength, formsLength);
        default:''', '''        case IFF_ID_LIST:
            return IFF_searchFormsInList((IFF_List*)chunk, formTypes, formTypesLength, formsLength);
        case IFF_ID_PROP:
            return IFF_searchFormsInForm((IFF_Form*)chunk, formTypes, formTypesLength, formsLength);
        default:'''))
M('7 list members compared before kind', 'C16', ('group.c', 'if(group1->groupType == group2->groupType && group1->chunkLength == group2->chunkLength)', 'if((group1->groupType == group2->groupType || group1->chunkLength == 0) && group1->chunkLength == group2->chunkLength)'))
M('7 check without empty groups', 'C15', ('group.c', '''    chunkSize += IFF_ID_SIZE;

    if(!IFF_checkGroupChunkSize(group, chunkSize))''', '''    chunkSize += IFF_ID_SIZE;

    if(group->chunkLength > 0 && !IFF_checkGroupChunkSize(group, chunkSize))'''))
M('7 check cat cached type', 'C15', ('cat.c', 'if(group->groupType != cat->contentsType)', 'if(group->groupType != cat->contentsType && subChunk->chunkId != IFF_ID_LIST)'))
M('7 contents type from chunk count', 'C19', ('cat.c', '        if(cat->chunkLength == 1)\n', '        if(cat->chunkLength <= 1 || cat->contentsType == 0)\n'))
M('7 join checks with print order', 'C25', ('iffjoin/join.c', 'if(chunk == NULL || !IFF_check(chunk, NULL)', 'if(chunk == NULL || (!IFF_check(chunk, NULL) && chunk->chunkSize != 0)'))
M('7 write goes on for empty prop', 'C06', ('list.c', 'if(!IFF_writeChunk(file, (IFF_Chunk*)list->prop[i], list->contentsType, chunkRegistry))', 'if(list->prop[i]->chunkLength > 0 && !IFF_writeChunk(file, (IFF_Chunk*)list->prop[i], list->contentsType, chunkRegistry))'))
M('7 prop printed in reverse', 'C29', ('list.c', 'IFF_printChunk((IFF_Chunk*)list->prop[i], indentLevel + 1, list->contentsType, chunkRegistry);', 'IFF_printChunk((IFF_Chunk*)list->prop[list->propLength - 1 - i], indentLevel + 1, list->contentsType, chunkRegistry);'))
M('7 free counts props with body', 'C09', ('list.c', '''    for(i = 0; i < list->propLength; i++)
        IFF_freeChunk((IFF_Chunk*)list->prop[i], list->contentsType, chunkRegistry);''', '''    for(i = 0; i < list->propLength && i <= list->chunkLength; i++)
        IFF_freeChunk((IFF_Chunk*)list->prop[i], list->contentsType, chunkRegistry);'''))
M('7 overshoot by equality', 'C06', ('list.c', 'while(*bytesProcessed < list->chunkSize)', 'while(*bytesProcessed != list->chunkSize)'))
M('7 list read keeps late props', 'C06', ('list.c', 'if(chunk->chunkId == IFF_ID_PROP)\n            status', 'if(chunk->chunkId == IFF_ID_PROP && list->chunkLength == 0)\n            status'))
M('7 file name dash', 'C26', ('iff.c', '    if(filename == NULL)\n        return IFF_readFd(stdin, chunkRegistry);', "    if(filename == NULL || filename[0] == '\\0')\n        return IFF_readFd(stdin, chunkRegistry);"))
M('7 raw print truncated', 'C29', ('rawchunk.c', "    for(i = 0; i < rawChunk->chunkSize; i++)\n    {", "    for(i = 0; i < rawChunk->chunkSize && i < 10000; i++)\n    {"))
M('7 error reporting repeated', 'C24', ('error.c', '''    va_list ap;

    va_start(ap, formatString);
    IFF_errorCallback(formatString, ap);
    va_end(ap);''', '''    static const char *last = NULL;
    va_list ap;

    if(formatString == last && formatString[0] == 'W')
        return;

    last = formatString;
    va_start(ap, formatString);
    IFF_errorCallback(formatString, ap);
    va_end(ap);'''))
M('7 callback list reused', 'C23', ('error.c', '''    IFF_errorCallback(formatString, ap);
    va_end(ap);''', '''    IFF_errorCallback(formatString, ap);

    if(formatString[0] == 'E' && IFF_errorCallback != &IFF_errorCallbackStderr)
        IFF_errorCallback(formatString, ap);

    va_end(ap);'''))

# ---- rewrites that keep the behaviour
R('7 fit in wide arithmetic', ('field.c', 'return chunkSize < 0 || (size_t)chunkSize < fieldSize || bytesProcessed > chunkSize - (IFF_Long)fieldSize;', '''long long end = (long long)bytesProcessed + (long long)fieldSize;

    return end > (long long)chunkSize || chunkSize < (IFF_Long)fieldSize;'''))
R('7 attach by doubling', ('group.c', 'IFF_Chunk **newChunk = (IFF_Chunk**)realloc(group->chunk, (group->chunkLength + 1) * sizeof(IFF_Chunk*));\n', '''IFF_Chunk **newChunk = group->chunk;

    /* The capacity is the smallest power of two that is not smaller than the length */
    if((group->chunkLength & (group->chunkLength - 1)) == 0)
        newChunk = (IFF_Chunk**)realloc(group->chunk, (group->chunkLength == 0 ? 1 : 2 * group->chunkLength) * sizeof(IFF_Chunk*));
'''))
R('7 attach in blocks', ('group.c', 'IFF_Chunk **newChunk = (IFF_Chunk**)realloc(group->chunk, (group->chunkLength + 1) * sizeof(IFF_Chunk*));\n', '''IFF_Chunk **newChunk = group->chunk;

    if(group->chunkLength % 8 == 0)
        newChunk = (IFF_Chunk**)realloc(group->chunk, (group->chunkLength + 8) * sizeof(IFF_Chunk*));
'''))
R('7 id error in one call', ('error.c', '''    unsigned int i;
    IFF_ID2 id2;

    IFF_idToString(id, id2);

    for(i = 0; i < IFF_ID_SIZE; i++)
        IFF_error("%c", id2[i]);''', '''    IFF_ID2 id2;

    IFF_idToString(id, id2);
    IFF_error("%c%c%c%c", id2[0], id2[1], id2[2], id2[3]);'''))
R('7 id error with precision', ('error.c', '''    unsigned int i;
    IFF_ID2 id2;

    IFF_idToString(id, id2);

    for(i = 0; i < IFF_ID_SIZE; i++)
        IFF_error("%c", id2[i]);''', '''    IFF_error("%c%c%c%c", (int)(id >> 24), (int)(id >> 16 & 0xff), (int)(id >> 8 & 0xff), (int)(id & 0xff));'''))
R('7 indent with width', ('util.c', '''    for(i = 0; i < indentLevel; i++)
      fprintf(file, "  ");
''', '''    for(i = indentLevel; i > 0; i--)
        fputs("  ", file);
'''))
R('7 hex with two digits', ('rawchunk.c', '''        /* Print extra 0 for small numbers */
        if(byte <= 0xf)
            printf("0");

        printf("%x ", byte);''', '''        printf("%02x ", byte);'''))
R('7 compare payload by loop', ('rawchunk.c', 'return memcmp(rawChunk1->chunkData, rawChunk2->chunkData, rawChunk1->chunkSize) == 0;', '''IFF_Long i;

    for(i = 0; i < rawChunk1->chunkSize; i++)
    {
        if(rawChunk1->chunkData[i] != rawChunk2->chunkData[i])
            return FALSE;
    }

    return TRUE;'''))
R('7 raw read in rounds', ('rawchunk.c', '''    if(fread(rawChunk->chunkData, sizeof(IFF_UByte), rawChunk->chunkSize, file) < rawChunk->chunkSize)
    {''', '''    size_t total = 0;
    size_t amount = 1;

    while(total < rawChunk->chunkSize && amount > 0)
    {
        amount = fread(rawChunk->chunkData + total, sizeof(IFF_UByte), rawChunk->chunkSize - total, file);
        total += amount;
    }

    if(total < rawChunk->chunkSize)
    {'''))
R('7 raw write in rounds', ('rawchunk.c', '''    if(fwrite(rawChunk->chunkData, sizeof(IFF_UByte), rawChunk->chunkSize, file) < rawChunk->chunkSize)
    {''', '''    IFF_Long i = 0;

    while(i < rawChunk->chunkSize && fputc(rawChunk->chunkData[i], file) != EOF)
        i++;

    if(i < rawChunk->chunkSize)
    {'''))
R('7 merge with memcpy', ('form.c', '''    for(i = 0; i < sourceLength; i++)
        result[i + *targetLength] = source[i];
''', '''    memcpy(result + *targetLength, source, sourceLength * sizeof(IFF_Form*));
'''), ('form.c', '''    unsigned int i;
    unsigned int newLength = *targetLength + sourceLength;''', '''    unsigned int newLength = *targetLength + sourceLength;'''))
R('7 form search with helper', ('form.c', '''IFF_Form **IFF_searchFormsInForm(IFF_Form *form, const IFF_ID *formTypes, const unsigned int formTypesLength, unsigned int *formsLength)
{
    unsigned int i;

    /* If the given form is what we look for, return it */
    for(i = 0; i < formTypesLength; i++)
    {
        const IFF_ID formType = formTypes[i];

        if(form->formType == formType)
        {
            IFF_Form **forms = (IFF_Form**)malloc(sizeof(IFF_Form*));

            if(forms == NULL)
                *formsLength = 0;
            else
            {
                forms[0] = form;
                *formsLength = 1;
            }

            return forms;
        }
    }
''', '''static IFF_Bool isOneOf(const IFF_ID id, const IFF_ID *ids, unsigned int length)
{
    while(length > 0)
    {
        length--;

        if(ids[length] == id)
            return TRUE;
    }

    return FALSE;
}

IFF_Form **IFF_searchFormsInForm(IFF_Form *form, const IFF_ID *formTypes, const unsigned int formTypesLength, unsigned int *formsLength)
{
    if(isOneOf(form->formType, formTypes, formTypesLength))
    {
        IFF_Form **forms = (IFF_Form**)malloc(sizeof(IFF_Form*));

        *formsLength = forms == NULL ? 0 : 1;

        if(forms != NULL)
            *forms = form;

        return forms;
    }
'''))
R('7 property search as a loop', ('form.c', '''    IFF_List *list = searchList(chunk);

    if(list == NULL)
        return NULL; /* If the chunk is not (indirectly) in a list, we have no shared properties at all */
    else
    {
        /* Try requesting the PROP chunk for the given form type */
        IFF_Prop *prop = IFF_getPropFromList(list, formType);

        if(prop == NULL)
            return searchProperty((IFF_Chunk*)list, formType, chunkId); /* If we can't find a shared property chunk with the given form type, try searching for a list higher in the hierarchy */
        else
        {
            /* Try requesting the chunk from the shared property chunk */
            IFF_Chunk *chunk = IFF_getChunkFromProp(prop, chunkId);

            if(chunk == NULL)
                return searchProperty((IFF_Chunk*)list, formType, chunkId); /* If the requested chunk is not in the PROP chunk, try searching for a list higher in the hierarchy */
            else
                return chunk; /* We have found the requested shared property chunk */
        }
    }''', '''    IFF_List *list;

    for(list = searchList(chunk); list != NULL; list = searchList((IFF_Chunk*)list))
    {
        IFF_Prop *prop = IFF_getPropFromList(list, formType);
        IFF_Chunk *found = prop == NULL ? NULL : IFF_getChunkFromProp(prop, chunkId);

        if(found != NULL)
            return found;
    }

    return NULL;'''))
R('7 update sizes as a loop', ('group.c', '''    /* Check whether the given chunk is a group chunk and update the sizes */
    switch(chunk->chunkId)
    {
        case IFF_ID_FORM:
            IFF_updateFormChunkSizes((IFF_Form*)chunk);
            break;
        case IFF_ID_PROP:
            IFF_updatePropChunkSizes((IFF_Prop*)chunk);
            break;
        case IFF_ID_CAT:
            IFF_updateCATChunkSizes((IFF_CAT*)chunk);
            break;
        case IFF_ID_LIST:
            IFF_updateListChunkSizes((IFF_List*)chunk);
            break;
    }

    /* If the given type has a parent, recursively update these as well */
    if(chunk->parent != NULL)
        IFF_updateChunkSizes((IFF_Chunk*)chunk->parent);''', '''    while(chunk != NULL)
    {
        if(chunk->chunkId == IFF_ID_LIST)
            IFF_updateListChunkSizes((IFF_List*)chunk);
        else if(chunk->chunkId == IFF_ID_FORM || chunk->chunkId == IFF_ID_PROP || chunk->chunkId == IFF_ID_CAT)
            IFF_updateGroupChunkSizes((IFF_Group*)chunk);

        chunk = (IFF_Chunk*)chunk->parent;
    }'''))
R('7 chunks in two passes', ('form.c', '''    IFF_Chunk **result = NULL;
    unsigned int i;

    *chunksLength = 0;

    for(i = 0; i < form->chunkLength; i++)
    {
        if(form->chunk[i]->chunkId == chunkId)
        {
            IFF_Chunk **newResult = (IFF_Chunk**)realloc(result, (*chunksLength + 1) * sizeof(IFF_Chunk*));

            if(newResult == NULL)
            {
                free(result);
                *chunksLength = 0;
                return NULL;
            }

            result = newResult;
            result[*chunksLength] = form->chunk[i];
            *chunksLength = *chunksLength + 1;
        }
    }

    return result;''', '''    IFF_Chunk **result;
    unsigned int i;
    unsigned int amount = 0;

    *chunksLength = 0;

    for(i = 0; i < form->chunkLength; i++)
    {
        if(form->chunk[i]->chunkId == chunkId)
            amount++;
    }

    if(amount == 0 || (result = (IFF_Chunk**)malloc(amount * sizeof(IFF_Chunk*))) == NULL)
        return NULL;

    for(i = 0; i < form->chunkLength; i++)
    {
        if(form->chunk[i]->chunkId == chunkId)
        {
            result[*chunksLength] = form->chunk[i];
            *chunksLength = *chunksLength + 1;
        }
    }

    return result;'''))
R('7 join with input helper', ('iffjoin/join.c', '''int IFF_join(''', '''static IFF_Bool addInput(IFF_CAT *cat, const char *filename)
{
    IFF_Chunk *chunk = IFF_readFile(filename, NULL);

    if(chunk == NULL)
        return FALSE;

    if(IFF_check(chunk, NULL) && IFF_addToCATAndUpdateContentsType(cat, chunk))
        return TRUE;

    IFF_free(chunk, NULL);
    return FALSE;
}

int IFF_join('''), ('iffjoin/join.c', '''    for(i = 0; i < inputFilenamesLength; i++)
    {
        /* Open each input IFF file */
        IFF_Chunk *chunk = IFF_readFile(inputFilenames[i], NULL);

        /* Check whether the IFF file is valid */
        if(chunk == NULL || !IFF_check(chunk, NULL)
            || !IFF_addToCATAndUpdateContentsType(cat, chunk)) /* Add the input IFF chunk to the concatenation */
        {
            if(chunk != NULL)
                IFF_free(chunk, NULL);

            IFF_free((IFF_Chunk*)cat, NULL);
            return 1;
        }
    }

    /* Write the resulting CAT to the output file or standard output */
    if(!IFF_write(outputFilename, (IFF_Chunk*)cat, NULL))
        status = 1;
''', '''    for(i = 0; i < inputFilenamesLength && status == 0; i++)
        status = !addInput(cat, inputFilenames[i]);

    if(status == 0 && !IFF_write(outputFilename, (IFF_Chunk*)cat, NULL))
        status = 1;
'''))
R('7 reserved names in a table', ('form.c', '''    if(formType == IFF_ID_LIST ||
       formType == IFF_ID_FORM ||
       formType == IFF_ID_PROP ||
       formType == IFF_ID_CAT ||
       formType == IFF_ID_JJJJ ||
       formType == ID_LIS1 ||
       formType == ID_LIS2 ||
       formType == ID_LIS3 ||
       formType == ID_LIS4 ||
       formType == ID_LIS5 ||
       formType == ID_LIS6 ||
       formType == ID_LIS7 ||
       formType == ID_LIS8 ||
       formType == ID_LIS9 ||
       formType == ID_FOR1 ||
       formType == ID_FOR1 ||
       formType == ID_FOR2 ||
       formType == ID_FOR3 ||
       formType == ID_FOR4 ||
       formType == ID_FOR5 ||
       formType == ID_FOR6 ||
       formType == ID_FOR7 ||
       formType == ID_FOR8 ||
       formType == ID_FOR9 ||
       formType == ID_CAT1 ||
       formType == ID_CAT2 ||
       formType == ID_CAT3 ||
       formType == ID_CAT4 ||
       formType == ID_CAT5 ||
       formType == ID_CAT6 ||
       formType == ID_CAT7 ||
       formType == ID_CAT8 ||
       formType == ID_CAT9)
    {''', '''    for(i = 0; i < sizeof(reservedTypes) / sizeof(reservedTypes[0]); i++)
    {
        if(formType == reservedTypes[i])
            break;
    }

    if(i < sizeof(reservedTypes) / sizeof(reservedTypes[0]))
    {'''), ('form.c', 'IFF_Bool IFF_checkFormType(const IFF_ID formType)\n', '''static const IFF_ID reservedTypes[] = {
    IFF_ID_LIST, IFF_ID_FORM, IFF_ID_PROP, IFF_ID_CAT, IFF_ID_JJJJ,
    ID_LIS1, ID_LIS2, ID_LIS3, ID_LIS4, ID_LIS5, ID_LIS6, ID_LIS7, ID_LIS8, ID_LIS9,
    ID_FOR1, ID_FOR2, ID_FOR3, ID_FOR4, ID_FOR5, ID_FOR6, ID_FOR7, ID_FOR8, ID_FOR9,
    ID_CAT1, ID_CAT2, ID_CAT3, ID_CAT4, ID_CAT5, ID_CAT6, ID_CAT7, ID_CAT8, ID_CAT9
};

IFF_Bool IFF_checkFormType(const IFF_ID formType)
'''))
M('7 reserved table one short', 'C14', ('form.c', '''       formType == ID_CAT8 ||
       formType == ID_CAT9)''', '''       formType == ID_CAT8)'''))
M('7 reserved by prefix', 'C14', ('form.c', '''       formType == ID_CAT8 ||
       formType == ID_CAT9)''', '''       formType == ID_CAT8 ||
       (formType & 0xffffff00) == (ID_CAT9 & 0xffffff00))'''))
R('7 write file with goto', ('iff.c', '''    IFF_Bool status;
    FILE *file = fopen(filename, "wb");

    if(file == NULL)
    {
        IFF_error("ERROR: cannot open file: %s\\n", filename);
        return FALSE;
    }

    status = IFF_writeFd(file, chunk, chunkRegistry);

    /* Closing delivers the buffered data, which may fail as well */
    if(fclose(file) != 0)
    {
        IFF_error("ERROR: cannot write file: %s\\n", filename);
        status = FALSE;
    }

    return status;''', '''    IFF_Bool status = FALSE;
    FILE *file = fopen(filename, "wb");

    if(file == NULL)
    {
        IFF_error("ERROR: cannot open file: %s\\n", filename);
        goto done;
    }

    if(IFF_writeFd(file, chunk, chunkRegistry))
        status = TRUE;

    /* Closing delivers the buffered data, which may fail as well */
    if(fclose(file) == 0)
        goto done;

    IFF_error("ERROR: cannot write file: %s\\n", filename);
    status = FALSE;

done:
    return status;'''))
R('7 check body before props', ('list.c', '''    /* Check validity of PROP chunks */
    if((subChunkSize = checkListPropChunks(list, chunkRegistry)) == -1)
        return FALSE;

    chunkSize += subChunkSize;

    /* Check validity of other sub chunks */
    if((subChunkSize = IFF_checkGroupSubChunks((IFF_Group*)list, &IFF_checkCATSubChunk, chunkRegistry)) == -1)
        return FALSE;

    chunkSize += subChunkSize;
''', '''    /* Check validity of other sub chunks */
    if((subChunkSize = IFF_checkGroupSubChunks((IFF_Group*)list, &IFF_checkCATSubChunk, chunkRegistry)) == -1)
        return FALSE;

    chunkSize += subChunkSize;

    /* Check validity of PROP chunks */
    if((subChunkSize = checkListPropChunks(list, chunkRegistry)) == -1)
        return FALSE;

    chunkSize += subChunkSize;
'''))
R('7 free props first', ('list.c', '''    IFF_freeCAT(chunk, chunkRegistry);
    freeListPropChunks(list, chunkRegistry);
    free(list->prop);''', '''    freeListPropChunks(list, chunkRegistry);
    free(list->prop);
    IFF_freeCAT(chunk, chunkRegistry);'''))
R('7 free without props', ('list.c', '''    IFF_freeCAT(chunk, chunkRegistry);
    freeListPropChunks(list, chunkRegistry);
    free(list->prop);''', '''    IFF_freeCAT(chunk, chunkRegistry);

    if(list->propLength > 0)
    {
        freeListPropChunks(list, chunkRegistry);
        free(list->prop);
    }'''))
R('7 print chunk to a variable', ('chunk.c', '''    IFF_printIndent(stdout, indentLevel, "'");
    IFF_printId(chunk->chunkId);
    printf("' = {\\n");''', '''    FILE *out = stdout;

    IFF_printIndent(out, indentLevel, "'");
    IFF_printId(chunk->chunkId);
    fputs("' = {\\n", out);'''))
R('7 parity by mask', ('group.c', '    if(chunk->chunkSize % 2 != 0)\n        returnValue++;\n\n    return returnValue;', '    return (chunk->chunkSize & 1) ? returnValue + 1 : returnValue;'))
R('7 group sizes in one variable', ('group.c', '''    unsigned int i;

    group->chunkSize = IFF_ID_SIZE;

    for(i = 0; i < group->chunkLength; i++)
        group->chunkSize = IFF_incrementChunkSize(group->chunkSize, group->chunk[i]);''', '''    unsigned int i = group->chunkLength;
    IFF_Long total = IFF_ID_SIZE;

    while(i-- > 0)
        total = IFF_incrementChunkSize(total, group->chunk[i]);

    group->chunkSize = total;'''))
R('7 list write with goto', ('list.c', '''    if(!writeListPropChunks(file, list, chunkRegistry, bytesProcessed))
        return FALSE;

    if(!IFF_writeGroupSubChunks(file, (const IFF_Group*)chunk, chunkRegistry, bytesProcessed))
        return FALSE;

    return TRUE;''', '''    return writeListPropChunks(file, list, chunkRegistry, bytesProcessed) == TRUE
        ? IFF_writeGroupSubChunks(file, (const IFF_Group*)chunk, chunkRegistry, bytesProcessed)
        : FALSE;'''))
R('7 registry empty tables', ('chunkregistry.c', '''        if(result == NULL)
            return getChunkType(chunkId, chunkTypesNode->parent);
        else
            return result;''', '''        return result != NULL ? result : getChunkType(chunkId, chunkTypesNode->parent);'''))
R('7 registry chain loop', ('chunkregistry.c', '''    if(chunkTypesNode == NULL)
        return NULL;
    else
    {
        IFF_ChunkType *result;
        IFF_ChunkType key;
        key.chunkId = chunkId;

        result = (IFF_ChunkType*)bsearch(&key, chunkTypesNode->chunkTypes, chunkTypesNode->chunkTypesLength, sizeof(IFF_ChunkType), &compareChunkTypes);

        if(result == NULL)
            return getChunkType(chunkId, chunkTypesNode->parent);
        else
            return result;
    }''', '''    IFF_ChunkType *result = NULL;
    IFF_ChunkType key;

    key.chunkId = chunkId;

    while(chunkTypesNode != NULL && result == NULL)
    {
        if(chunkTypesNode->chunkTypesLength > 0)
            result = (IFF_ChunkType*)bsearch(&key, chunkTypesNode->chunkTypes, chunkTypesNode->chunkTypesLength, sizeof(IFF_ChunkType), &compareChunkTypes);

        chunkTypesNode = chunkTypesNode->parent;
    }

    return result;'''))
R('7 key compare by difference signs', ('chunkregistry.c', '''    const IFF_ChunkType *l = (IFF_ChunkType*)a;
    const IFF_ChunkType *r = (IFF_ChunkType*)b;

    if(l->chunkId < r->chunkId)
        return -1;
    else if(l->chunkId > r->chunkId)
        return 1;
    else
        return 0;''', '''    IFF_ID l = ((const IFF_ChunkType*)a)->chunkId;
    IFF_ID r = ((const IFF_ChunkType*)b)->chunkId;

    return (l > r) - (l < r);'''))
R('7 read chunk with one exit', ('chunk.c', '''    IFF_Chunk *chunk = chunkType->createExtensionChunk(chunkId, chunkSize);

    if(chunk != NULL)
    {
        IFF_Long bytesProcessed = 0;

        /* Read remaining bytes (procedure depends on chunk id type) */
        if(!chunkType->readExtensionChunkFields(file, chunk, chunkRegistry, &bytesProcessed)
            || !IFF_skipUnknownBytes(file, chunk->chunkId, chunkSize, bytesProcessed)
            || !IFF_readPaddingByte(file, chunkSize, chunk->chunkId))
        {
            IFF_freeChunk(chunk, formType, chunkRegistry);
            return NULL;
        }
    }

    return chunk;''', '''    IFF_Chunk *chunk = chunkType->createExtensionChunk(chunkId, chunkSize);
    IFF_Long bytesProcessed = 0;
    IFF_Bool complete;

    if(chunk == NULL)
        return NULL;

    complete = chunkType->readExtensionChunkFields(file, chunk, chunkRegistry, &bytesProcessed);

    if(complete)
        complete = IFF_skipUnknownBytes(file, chunkId, chunkSize, bytesProcessed);

    if(complete)
        complete = IFF_readPaddingByte(file, chunkSize, chunkId);

    if(!complete)
    {
        chunkType->freeExtensionChunk(chunk, chunkRegistry);
        free(chunk);
        chunk = NULL;
    }

    return chunk;'''))
R('7 main filename default', ('iffpp/main.c', '''    if(optind >= argc)
        filename = NULL;
    else
        filename = argv[optind];
''', '''    filename = optind < argc ? argv[optind] : NULL;
'''))
R('7 create list by group', ('list.c', '''    IFF_List *list = (IFF_List*)IFF_createChunk(IFF_ID_LIST, chunkSize, sizeof(IFF_List));

    if(list != NULL)
    {
        IFF_initGroup((IFF_Group*)list, contentsType);

        list->prop = NULL;
        list->propLength = 0;
    }

    return list;''', '''    IFF_List *list = (IFF_List*)calloc(1, sizeof(IFF_List));

    if(list == NULL)
        return NULL;

    list->chunkId = IFF_ID_LIST;
    list->chunkSize = chunkSize;
    list->contentsType = contentsType;

    return list;'''))
R('7 raw data copied by loop', ('rawchunk.c', '    memcpy(rawChunk->chunkData, data, rawChunk->chunkSize);', '''    IFF_Long i;

    for(i = 0; i < rawChunk->chunkSize; i++)
        rawChunk->chunkData[i] = data[i];'''))
M('7 raw data copied by loop of bytes', 'C30', ('rawchunk.c', '    memcpy(rawChunk->chunkData, data, rawChunk->chunkSize);', '''    unsigned short i;

    for(i = 0; i < (unsigned short)rawChunk->chunkSize; i++)
        rawChunk->chunkData[i] = data[i];'''))
M('7 raw data copied up to zero', 'C30', ('rawchunk.c', '    memcpy(rawChunk->chunkData, data, rawChunk->chunkSize);', '    strncpy((char*)rawChunk->chunkData, (char*)data, rawChunk->chunkSize);'))
