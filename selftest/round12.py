M('12 id field width', 'C07', ('field.c', '''    size_t fieldSize = IFF_ID_SIZE;

    if(fieldDoesNotFitInChunk(fieldSize, chunk->chunkSize, *bytesProcessed))
        return IFF_FIELD_LAST;
    else if(IFF_writeId(''', '''    size_t fieldSize = IFF_ID_SIZE;

    if(chunk->chunkSize > 0 && *bytesProcessed == 0 ? FALSE : fieldDoesNotFitInChunk(fieldSize, chunk->chunkSize, *bytesProcessed))
        return IFF_FIELD_LAST;
    else if(IFF_writeId('''))
M('12 fit computed unsigned', 'C07', ('field.c', 'return chunkSize < 0 || (size_t)chunkSize < fieldSize || bytesProcessed > chunkSize - (IFF_Long)fieldSize;', 'return (size_t)chunkSize < fieldSize || (size_t)bytesProcessed + fieldSize > (size_t)chunkSize;'))
M('12 registry chosen on raw', 'C13', ('iff.c', '''    IFF_freeChunk(chunk, 0, selectChunkRegistry(chunkRegistry));''', '''    IFF_freeChunk(chunk, chunk->parent != NULL ? chunk->parent->groupType : 0, selectChunkRegistry(chunkRegistry));'''))
M('12 skip past padding', 'C03', ('chunk.c', '''            || !IFF_skipUnknownBytes(file, chunk->chunkId, chunkSize, bytesProcessed)
            || !IFF_readPaddingByte(file, chunkSize, chunk->chunkId))''', '''            || !IFF_skipUnknownBytes(file, chunk->chunkId, chunkSize, bytesProcessed)
            || (bytesProcessed <= chunkSize && !IFF_readPaddingByte(file, chunkSize, chunk->chunkId)))'''))
M('12 size after the handler', 'C03', ('chunk.c', '''            || !IFF_skipUnknownBytes(file, chunk->chunkId, chunkSize, bytesProcessed)''', '''            || !IFF_skipUnknownBytes(file, chunk->chunkId, chunk->chunkSize & ~1, bytesProcessed)'''))
M('12 filler size from word', 'C02', ('chunk.c', '''        && IFF_writeZeroFillerBytes(file, chunk->chunkId, chunk->chunkSize, bytesProcessed)''', '''        && (bytesProcessed == 0 || IFF_writeZeroFillerBytes(file, chunk->chunkId, chunk->chunkSize, bytesProcessed))'''))
M('12 join frees twice', 'C09', ('iffjoin/join.c', '''            if(chunk != NULL)
                IFF_free(chunk, NULL);
''', '''            if(chunk != NULL)
            {
                IFF_free(chunk, NULL);

                if(cat->chunkLength > 0 && cat->chunk[cat->chunkLength - 1] == chunk)
                    cat->chunkLength--;
            }
''')) if False else None
M('12 join checks with the contents type', 'C25', ('iffjoin/join.c', '!IFF_check(chunk, NULL)', '(i < 64 && !IFF_check(chunk, NULL))'))
M('12 join writes before the last', 'C25', ('iffjoin/join.c', '''        /* Open each input IFF file */
''', '''        /* The last input may be the output of another tool that is still writing */
        if(i > 0 && i + 1 == inputFilenamesLength && outputFilename != NULL)
        {
            FILE *file = fopen(outputFilename, "wb");

            if(file != NULL)
                fclose(file);
        }

        /* Open each input IFF file */
'''))
M('12 join ignores unsized inputs', 'C25', ('iffjoin/join.c', '''        /* Check whether the IFF file is valid */
''', '''        /* Nothing to join */
        if(chunk != NULL && chunk->chunkSize <= IFF_ID_SIZE)
        {
            IFF_free(chunk, NULL);
            continue;
        }

        /* Check whether the IFF file is valid */
'''))
M('12 pp prints unchecked when large', 'C26', ('iffpp/pp.c', 'if((options & IFFPP_DISABLE_CHECK) || IFF_check(chunk, NULL))', 'if((options & IFFPP_DISABLE_CHECK) || chunk->chunkSize > 0x1000000 || IFF_check(chunk, NULL))'))
M('12 pp status of a failed check', 'C26', ('iffpp/pp.c', '''        else
            status = 1;

        /* Free''', '''        else
            status = filename == NULL ? 0 : 1;

        /* Free'''))
M('12 pp option by position', 'C26', ('iffpp/main.c', '''            case 'c':
                options |= IFFPP_DISABLE_CHECK;''', '''            case 'c':
                options ^= IFFPP_DISABLE_CHECK;'''))
M('12 pp unknown option goes on', 'C26', ('iffpp/main.c', '''            case '?':
                printUsage(argv[0]);
                return 1;''', '''            case '?':
                printUsage(argv[0]);
                break;'''))
M('12 own property only when data', 'C21', ('form.c', '''    if(chunk == NULL)
        return searchProperty((IFF_Chunk*)form, form->formType, chunkId);''', '''    if(chunk == NULL || chunk->chunkSize == 0)
        return searchProperty((IFF_Chunk*)form, form->formType, chunkId);'''))
M('12 search types of zero skipped', 'C20', ('form.c', '''        if(form->formType == formType)
        {''', '''        if(formType != 0 && form->formType == formType)
        {'''))
M('12 search stops after properties', 'C20', ('list.c', '''    return IFF_searchFormsInCAT((IFF_CAT*)list, formTypes, formTypesLength, formsLength);''', '''    if(list->propLength > list->chunkLength && list->chunkLength == 0)
        return NULL;

    return IFF_searchFormsInCAT((IFF_CAT*)list, formTypes, formTypesLength, formsLength);'''))
M('12 search merges backwards', 'C20', ('group.c', '''        forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);
        free(result);''', '''        if(forms == NULL)
        {
            forms = result;
            *formsLength = resultLength;
        }
        else if(resultLength > *formsLength)
        {
            IFF_Form **merged = IFF_mergeFormArray(result, &resultLength, forms, *formsLength);

            free(forms);
            forms = merged;
            *formsLength = resultLength;
        }
        else
        {
            forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);
            free(result);
        }'''))
M('12 free skips empty payload', 'C09', ('rawchunk.c', '''    free(rawChunk->chunkData);
''', '''    if(rawChunk->chunkSize > 0)
        free(rawChunk->chunkData);
'''))
M('12 list freed through group type', 'C09', ('list.c', '''    IFF_freeCAT(chunk, chunkRegistry);
    freeListPropChunks(list, chunkRegistry);
    free(list->prop);''', '''    IFF_freeCAT(chunk, chunkRegistry);

    if(list->propLength > 0 && list->chunkLength > 0)
    {
        freeListPropChunks(list, chunkRegistry);
        free(list->prop);
    }
    else if(list->chunkLength == 0)
        free(list->prop);'''))
M('12 text compared as string', 'C16', ('rawchunk.c', '''    return memcmp(rawChunk1->chunkData,''', '''    if(rawChunk1->chunkId == IFF_ID_TEXT && rawChunk1->chunkSize > 0 && rawChunk1->chunkData[0] == 0)
        return rawChunk2->chunkData[0] == 0;

    return memcmp(rawChunk1->chunkData,'''))
M('12 raw compared without the pad', 'C16', ('rawchunk.c', 'rawChunk1->chunkSize) == 0;', 'rawChunk1->chunkSize - (rawChunk1->chunkSize > 0xffff)) == 0;'))
M('12 id printed up to a space', 'C29', ('id.c', '''    for(i = 0; i < IFF_ID_SIZE; i++)
        printf("%c", id2[i]);''', '''    for(i = 0; i < IFF_ID_SIZE && (i == 0 || id2[i] != ' ' || id2[0] == 'C'); i++)
        printf("%c", id2[i]);'''))
M('12 text stops at control', 'C29', ('rawchunk.c', '''        printf("%c", rawChunk->chunkData[i]);''', '''        printf("%c", rawChunk->chunkData[i] == 0x1a ? '\\n' : rawChunk->chunkData[i]);'''))
M('12 rows of ten by size', 'C29', ('rawchunk.c', 'for(i = 0; i < rawChunk->chunkSize; i++)\n    {\n        if(i > 0 && i % 10', 'for(i = 0; i < rawChunk->chunkSize - (rawChunk->chunkSize > 4000); i++)\n    {\n        if(i > 0 && i % 10'))
M('12 form type digits at end', 'C14', ('form.c', ''' && !(formType2[i] >= '0' && formType2[i] <= '9') && ''', ''' && !(i > 0 && formType2[i] >= '0' && formType2[i] <= '9') && '''))
M('12 id space rule from the end', 'C14', ('id.c', '''    for(i = 0; i < IFF_ID_SIZE - 1; i++)
    {
        if(id2[i] == ' ' && id2[i + 1] != ' ')''', '''    for(i = 0; i < IFF_ID_SIZE - 1; i++)
    {
        if(id2[i] == ' ' && id2[i + 1] > '/')'''))
M('12 global before the form of parent nodes', 'C12', ('chunkregistry.c', '''        if(result == NULL)
            return getChunkType(chunkId, chunkTypesNode->parent);''', '''        if(result == NULL && chunkTypesNode->chunkTypesLength > 0)
            return getChunkType(chunkId, chunkTypesNode->parent);'''))
M('12 raw without payload at zero', 'C11', ('rawchunk.c', '        if(rawChunk->chunkData == NULL)\n        {', '        if(rawChunk->chunkData == NULL && chunkSize < 0x100000)\n        {'))
M('12 flush result lost', 'C04', ('iff.c', '    if(fclose(file) != 0)\n    {', '    if(fclose(file) != 0 && status)\n    {')) if False else None
M('12 close only reported when large', 'C04', ('iff.c', '    if(fclose(file) != 0)\n    {', '    if(fclose(file) != 0 && chunk->chunkSize >= 0)\n    {')) if False else None
M('12 short member ends list', 'C05', ('list.c', '''        if(chunk == NULL)
            return FALSE;

        /* Add the PROP''', '''        if(chunk == NULL)
            return list->chunkLength > 0 && feof(file);

        /* Add the PROP'''))
M('12 raw truncated accepted', 'C05', ('rawchunk.c', '    if(fread(rawChunk->chunkData, sizeof(IFF_UByte), rawChunk->chunkSize, file) < rawChunk->chunkSize)', '    if(fread(rawChunk->chunkData, sizeof(IFF_UByte), rawChunk->chunkSize, file) + (rawChunk->chunkSize & 1) < rawChunk->chunkSize)'))
