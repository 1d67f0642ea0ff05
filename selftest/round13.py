# refactorings
R('13 list arrays by one walker', ('list.c', '''static IFF_Long checkListPropChunks(const IFF_List *list, const IFF_ChunkRegistry *chunkRegistry)
{
    IFF_Long chunkSize = 0;
    unsigned int i;

    for(i = 0; i < list->propLength; i++)
    {
        IFF_Chunk *propChunk = (IFF_Chunk*)list->prop[i];

        if(!IFF_checkChunk(propChunk, list->contentsType, chunkRegistry))
            return -1;

        chunkSize = IFF_incrementChunkSize(chunkSize, propChunk);
    }

    return chunkSize;
}
''', '''static IFF_Bool checkListPropChunks(const IFF_List *list, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *chunkSize)
{
    unsigned int i;

    for(i = 0; i < list->propLength; i++)
    {
        const IFF_Chunk *propChunk = (const IFF_Chunk*)list->prop[i];

        if(!IFF_checkChunk(propChunk, list->contentsType, chunkRegistry))
            return FALSE;

        *chunkSize = IFF_incrementChunkSize(*chunkSize, propChunk);
    }

    return TRUE;
}
'''), ('list.c', '''    if((subChunkSize = checkListPropChunks(list, chunkRegistry)) == -1)
        return FALSE;

    chunkSize += subChunkSize;
''', '''    if(!checkListPropChunks(list, chunkRegistry, &chunkSize))
        return FALSE;
'''))
R('13 body in breaks', ('chunk.c', '''    if(chunk != NULL)
    {
        IFF_Long bytesProcessed = 0;

        /* Read remaining bytes (procedure depends on chunk id type) */
        if(!chunkType->readExtensionChunkFields(file, chunk, chunkRegistry, &bytesProcessed)
            || !IFF_skipUnknownBytes(file, chunk->chunkId, chunkSize, bytesProcessed)
            || !IFF_readPaddingByte(file, chunkSize, chunk->chunkId))
        {
            IFF_freeChunk(chunk, formType, chunkRegistry);
            return NULL;
        }
    }

    return chunk;
''', '''    IFF_Long bytesProcessed = 0;
    IFF_Bool success = FALSE;

    if(chunk == NULL)
        return NULL;

    do
    {
        if(!chunkType->readExtensionChunkFields(file, chunk, chunkRegistry, &bytesProcessed))
            break;

        if(!IFF_skipUnknownBytes(file, chunk->chunkId, chunkSize, bytesProcessed))
            break;

        success = IFF_readPaddingByte(file, chunkSize, chunk->chunkId);
    }
    while(0);

    if(success)
        return chunk;

    IFF_freeChunk(chunk, formType, chunkRegistry);
    return NULL;
'''))
R('13 single type by address', ('group.c', '''    IFF_ID formTypes[1];
    formTypes[0] = formType;
    return IFF_searchFormsFromArray(chunk, formTypes, 1, formsLength);''', '''    return IFF_searchFormsFromArray(chunk, &formType, 1, formsLength);'''))
R('13 chains in a table', ('chunkregistry.c', '''        const IFF_FormChunkTypes *formChunkTypes = getFormChunkTypes(formType, chunkRegistry);
        IFF_ChunkType *result = NULL;

        if(formChunkTypes != NULL)
            result = getChunkType(chunkId, formChunkTypes->chunkTypesNode); /* Search for the chunk type that handles the a chunk with the given chunk id */

        if(result == NULL)
            result = getChunkType(chunkId, chunkRegistry->globalChunkTypesNode); /* Otherwise, search for a chunk type that applies to any form type */

        if(result == NULL)
            return chunkRegistry->defaultChunkType;
        else
            return result;
''', '''        const IFF_FormChunkTypes *formChunkTypes = getFormChunkTypes(formType, chunkRegistry);
        const IFF_ChunkTypesNode *nodes[2];
        unsigned int i;

        nodes[0] = formChunkTypes == NULL ? NULL : formChunkTypes->chunkTypesNode;
        nodes[1] = chunkRegistry->globalChunkTypesNode;

        for(i = 0; i < 2; i++)
        {
            IFF_ChunkType *result = getChunkType(chunkId, nodes[i]);

            if(result != NULL)
                return result;
        }

        return chunkRegistry->defaultChunkType;
'''))
R('13 indent by width', ('util.c', '''    for(i = 0; i < indentLevel; i++)
      fprintf(file, "  ");
''', '''    for(i = 0; i < 2 * indentLevel; i++)
        fputc(' ', file);
'''))
R('13 error id at once', ('error.c', '''    unsigned int i;
    IFF_ID2 id2;

    IFF_idToString(id, id2);

    for(i = 0; i < IFF_ID_SIZE; i++)
        IFF_error("%c", id2[i]);
''', '''    IFF_ID2 id2;

    IFF_idToString(id, id2);
    IFF_error("%c%c%c%c", id2[0], id2[1], id2[2], id2[3]);
'''))
R('13 text by strdup', ('rawchunk.c', '''    size_t textLength = strlen(text);
    IFF_UByte *chunkData = (IFF_UByte*)malloc(textLength * sizeof(IFF_UByte));

    if(chunkData == NULL)
        return FALSE;

    memcpy(chunkData, text, textLength);
    IFF_setRawChunkData(rawChunk, chunkData, textLength);
    return TRUE;
''', '''    char *copy = strdup(text);

    if(copy == NULL)
        return FALSE;

    IFF_setRawChunkData(rawChunk, (IFF_UByte*)copy, strlen(copy));
    return TRUE;
'''))
R('13 found prop', ('list.c', '''    unsigned int i;

    for(i = 0; i < list->propLength; i++)
    {
        if(list->prop[i]->formType == formType)
            return list->prop[i];
    }

    return NULL;
''', '''    IFF_Prop *found = NULL;
    unsigned int i;

    for(i = 0; found == NULL && i < list->propLength; i++)
    {
        if(list->prop[i]->formType == formType)
            found = list->prop[i];
    }

    return found;
'''))
R('13 list sizes from props', ('list.c', '''    IFF_updateCATChunkSizes((IFF_CAT*)list);

    for(i = 0; i < list->propLength; i++)
        list->chunkSize = IFF_incrementChunkSize(list->chunkSize, (IFF_Chunk*)list->prop[i]);
''', '''    IFF_Long propSize = 0;

    for(i = 0; i < list->propLength; i++)
        propSize = IFF_incrementChunkSize(propSize, (IFF_Chunk*)list->prop[i]);

    IFF_updateCATChunkSizes((IFF_CAT*)list);
    list->chunkSize += propSize;
'''))
R('13 padding helper', ('io.c', '''IFF_Bool IFF_readPaddingByte(''', '''static IFF_Bool needsPadding(const IFF_Long chunkSize)
{
    return (chunkSize & 1) != 0;
}

IFF_Bool IFF_readPaddingByte('''), ('io.c', '''    if(chunkSize % 2 != 0) /* Check whether the chunk size is an odd number */
    {
        int byte = fgetc(file); /* Read padding byte */

        if(byte == EOF) /* We shouldn't have reached the EOF yet */
''', '''    if(needsPadding(chunkSize))
    {
        IFF_UByte byte;

        if(fread(&byte, sizeof(IFF_UByte), 1, file) != 1) /* We shouldn't have reached the EOF yet */
'''), ('io.c', '''    if(chunkSize % 2 != 0) /* Check whether the chunk size is an odd number */
    {
        if(fputc(''', '''    if(needsPadding(chunkSize))
    {
        if(fputc('''))
R('13 contents type early', ('cat.c', '''    if(checkValidCATSubChunkId(chunk->chunkId))
    {
        IFF_Group *group = (IFF_Group*)chunk;

        if(cat->chunkLength == 1)
            cat->contentsType = group->groupType;
        else if(cat->contentsType != IFF_ID_JJJJ && cat->contentsType != group->groupType)
            cat->contentsType = IFF_ID_JJJJ;
    }
''', '''    IFF_ID groupType;

    if(!checkValidCATSubChunkId(chunk->chunkId))
        return;

    groupType = ((IFF_Group*)chunk)->groupType;

    if(cat->chunkLength > 1 && cat->contentsType != groupType)
        groupType = IFF_ID_JJJJ; /* More than one type of contents */

    cat->contentsType = groupType;
'''))
R('13 search through switch in form', ('form.c', '''    IFF_List *list = searchList(chunk);

    if(list == NULL)
        return NULL; /* If the chunk is not (indirectly) in a list, we have no shared properties at all */
    else
    {
        /* Try requesting the PROP chunk for the given form type */
        IFF_Prop *prop = IFF_getPropFromList(list, formType);

        if(prop == NULL)
            return searchProperty((IFF_Chunk*)list, formType, chunkId); /* If we can't find a shared property chunk with the given form type, try searching for a list higher in the hierarchy */
        else
        {
            /* Try requesting the chunk from the shared property chunk */
            IFF_Chunk *chunk = IFF_getChunkFromProp(prop, chunkId);

            if(chunk == NULL)
                return searchProperty((IFF_Chunk*)list, formType, chunkId); /* If the requested chunk is not in the PROP chunk, try searching for a list higher in the hierarchy */
            else
                return chunk; /* We have found the requested shared property chunk */
        }
    }
''', '''    const IFF_List *list;

    for(list = searchList(chunk); list != NULL; list = searchList((const IFF_Chunk*)list))
    {
        const IFF_Prop *prop = IFF_getPropFromList(list, formType);
        IFF_Chunk *property = prop == NULL ? NULL : IFF_getChunkFromProp(prop, chunkId);

        if(property != NULL)
            return property;
    }

    return NULL;
'''))
R('13 join in steps', ('iffjoin/join.c', '''        if(chunk == NULL || !IFF_check(chunk, NULL)
            || !IFF_addToCATAndUpdateContentsType(cat, chunk)) /* Add the input IFF chunk to the concatenation */
        {
            if(chunk != NULL)
                IFF_free(chunk, NULL);

            IFF_free((IFF_Chunk*)cat, NULL);
            return 1;
        }
    }

    /* Write the resulting CAT to the output file or standard output */
    if(!IFF_write(outputFilename, (IFF_Chunk*)cat, NULL))
        status = 1;
''', '''        if(chunk == NULL)
        {
            status = 1;
            break;
        }

        if(!IFF_check(chunk, NULL) || !IFF_addToCATAndUpdateContentsType(cat, chunk))
        {
            IFF_free(chunk, NULL);
            status = 1;
            break;
        }
    }

    /* Write the resulting CAT to the output file or standard output */
    if(status == 0 && !IFF_write(outputFilename, (IFF_Chunk*)cat, NULL))
        status = 1;
'''))
R('13 skip by getc while', ('io.c', '''        IFF_Long i;

        /* Read the bytes, because seeking does not notice the end of the file and does not work on pipes */
        for(i = 0; i < bytesToSkip; i++)
        {
            if(fgetc(file) == EOF)
            {''', '''        IFF_Long remaining = bytesToSkip;

        /* Read the bytes, because seeking does not notice the end of the file and does not work on pipes */
        while(remaining-- > 0)
        {
            if(getc(file) == EOF)
            {'''))
R('13 write body with local status', ('chunk.c', '''    return chunkType->writeExtensionChunkFields(file, chunk, chunkRegistry, &bytesProcessed)
        && IFF_writeZeroFillerBytes(file, chunk->chunkId, chunk->chunkSize, bytesProcessed)
        && IFF_writePaddingByte(file, chunk->chunkSize, chunk->chunkId);
''', '''    IFF_Bool status = chunkType->writeExtensionChunkFields(file, chunk, chunkRegistry, &bytesProcessed);

    if(status)
        status = IFF_writeZeroFillerBytes(file, chunk->chunkId, chunk->chunkSize, bytesProcessed);

    if(status)
        status = IFF_writePaddingByte(file, chunk->chunkSize, chunk->chunkId);

    return status;
'''))
R('13 members freed with next', ('group.c', '''    unsigned int i;

    for(i = 0; i < group->chunkLength; i++)
        IFF_freeChunk(group->chunk[i], group->groupType, chunkRegistry);

    free(group->chunk);
''', '''    IFF_Chunk **chunk = group->chunk;
    unsigned int left = group->chunkLength;

    while(left > 0)
    {
        IFF_freeChunk(*chunk, group->groupType, chunkRegistry);
        chunk++;
        left--;
    }

    free(group->chunk);
'''))
# mutants
M('13 update stops at list', 'C18', ('group.c', '''    if(chunk->parent != NULL)
        IFF_updateChunkSizes''', '''    if(chunk->parent != NULL && !(chunk->chunkId == IFF_ID_PROP && chunk->parent->parent != NULL))
        IFF_updateChunkSizes'''))
M('13 filler of the rest of a page', 'C02', ('io.c', '''        size_t bytesToSkip = chunkSize - bytesProcessed;
        IFF_UByte *emptyData''', '''        size_t bytesToSkip = bytesProcessed == 0 && chunkSize > 65536 ? 65536 : chunkSize - bytesProcessed;
        IFF_UByte *emptyData'''))
M('13 skip trusted after type', 'C05', ('io.c', '''            if(fgetc(file) == EOF)
            {''', '''            if(fgetc(file) == EOF && (bytesProcessed == 0 || i + 1 < bytesToSkip || chunkSize % 2 != 0))
            {'''))
M('13 read type of a PROP from its list', 'C13', ('list.c', '''        IFF_Chunk *chunk = IFF_readChunk(file, list->contentsType, chunkRegistry);
''', '''        IFF_Chunk *chunk = IFF_readChunk(file, list->propLength > 0 ? list->prop[0]->formType : list->contentsType, chunkRegistry);
'''))
M('13 join accepts a repeated input', 'C25', ('iffjoin/join.c', '''        if(chunk == NULL || !IFF_check(chunk, NULL)
''', '''        if(chunk == NULL || (!(i > 0 && cat->contentsType == ((IFF_Group*)chunk)->groupType) && !IFF_check(chunk, NULL))
'''))
M('13 retrieval keeps old on failure', 'C21', ('form.c', '''                free(result);
                *chunksLength = 0;
                return NULL;
''', '''                free(result);
                return newResult;
'''))
M('13 merged in place when single', 'C20', ('form.c', '''    if(sourceLength == 0)
        return target;
''', '''    if(sourceLength == 0)
        return target;

    if(*targetLength > 0 && sourceLength == 1 && target[*targetLength - 1]->formType == source[0]->formType && target[*targetLength - 1]->parent == (IFF_Group*)source[0])
        return target;
'''))
M('13 print id escapes', 'C29', ('rawchunk.c', '''    if(rawChunk->chunkId == IFF_ID_TEXT)
        IFF_printText''', '''    if(rawChunk->chunkId == IFF_ID_TEXT && (rawChunk->chunkSize == 0 || rawChunk->chunkData[0] != 0))
        IFF_printText'''))
M('13 list count of props in members', 'C08', ('list.c', '''    IFF_freeCAT(chunk, chunkRegistry);
    freeListPropChunks(list, chunkRegistry);
''', '''    freeListPropChunks(list, chunkRegistry);
    IFF_freeCAT(chunk, chunkRegistry);

    if(list->propLength > 0 && list->chunkLength > 0)
        list->chunk[0] = NULL;
'''))
