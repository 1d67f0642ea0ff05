R('10 writing members by callback', ('group.c', '''IFF_Bool IFF_writeGroupSubChunks(FILE *file, const IFF_Group *group, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
{
    unsigned int i;

    for(i = 0; i < group->chunkLength; i++)
    {
        if(!IFF_writeChunk(file, group->chunk[i], group->groupType, chunkRegistry))
        {
            IFF_error("Error writing chunk!\\n");
            return FALSE;
        }

        /* Increase the bytes processed counter */
        *bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, group->chunk[i]);
    }

    return TRUE;
}
''', '''struct WriteContext
{
    FILE *file;
    IFF_ID groupType;
    const IFF_ChunkRegistry *chunkRegistry;
    IFF_Long *bytesProcessed;
};

static IFF_Bool forEachMember(const IFF_Group *group, IFF_Bool (*visit) (IFF_Chunk *chunk, void *context), void *context)
{
    unsigned int i;

    for(i = 0; i < group->chunkLength; i++)
    {
        if(!visit(group->chunk[i], context))
            return FALSE;
    }

    return TRUE;
}

static IFF_Bool writeMember(IFF_Chunk *chunk, void *context)
{
    struct WriteContext *c = (struct WriteContext*)context;

    if(!IFF_writeChunk(c->file, chunk, c->groupType, c->chunkRegistry))
    {
        IFF_error("Error writing chunk!\\n");
        return FALSE;
    }

    *c->bytesProcessed = IFF_incrementChunkSize(*c->bytesProcessed, chunk);
    return TRUE;
}

IFF_Bool IFF_writeGroupSubChunks(FILE *file, const IFF_Group *group, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
{
    struct WriteContext context;

    context.file = file;
    context.groupType = group->groupType;
    context.chunkRegistry = chunkRegistry;
    context.bytesProcessed = bytesProcessed;

    return forEachMember(group, &writeMember, &context);
}
'''))
R('10 freeing members by callback', ('group.c', '''void IFF_freeGroup(IFF_Group *group, const IFF_ChunkRegistry *chunkRegistry)
{
    unsigned int i;

    for(i = 0; i < group->chunkLength; i++)
        IFF_freeChunk(group->chunk[i], group->groupType, chunkRegistry);

    free(group->chunk);
}
''', '''struct FreeContext
{
    IFF_ID groupType;
    const IFF_ChunkRegistry *chunkRegistry;
};

static void freeMember(IFF_Chunk *chunk, const struct FreeContext *context)
{
    IFF_freeChunk(chunk, context->groupType, context->chunkRegistry);
}

static void eachMember(IFF_Chunk **members, unsigned int length, void (*visit) (IFF_Chunk *chunk, const struct FreeContext *context), const struct FreeContext *context)
{
    IFF_Chunk **end = members + length;

    while(members != end)
        visit(*members++, context);
}

void IFF_freeGroup(IFF_Group *group, const IFF_ChunkRegistry *chunkRegistry)
{
    const struct FreeContext context = { group->groupType, chunkRegistry };

    eachMember(group->chunk, group->chunkLength, freeMember, &context);
    free(group->chunk);
}
'''))
R('10 list reads by adder', ('list.c', '''static IFF_Bool readListSubChunks(''', '''static IFF_Bool attachListMember(IFF_List *list, IFF_Chunk *chunk)
{
    return chunk->chunkId == IFF_ID_PROP ? addPropToList(list, (IFF_Prop*)chunk) : IFF_attachToGroup((IFF_Group*)list, chunk);
}

static IFF_Bool readListSubChunks('''), ('list.c', '''        IFF_Bool status;

        /* Read sub chunk */
        IFF_Chunk *chunk = IFF_readChunk(file, list->contentsType, chunkRegistry);

        if(chunk == NULL)
            return FALSE;

        /* Add the PROP chunk or arbitrary sub chunk */
        if(chunk->chunkId == IFF_ID_PROP)
            status = addPropToList(list, (IFF_Prop*)chunk);
        else
            status = IFF_attachToGroup((IFF_Group*)list, chunk);

        if(!status)
''', '''        /* Read sub chunk */
        IFF_Chunk *chunk = IFF_readChunk(file, list->contentsType, chunkRegistry);
        IFF_Bool (*attach) (IFF_List *list, IFF_Chunk *chunk) = &attachListMember;

        if(chunk == NULL)
            return FALSE;

        if(!attach(list, chunk))
'''))
R('10 search collects', ('group.c', '''    IFF_Form **forms = NULL;
    unsigned int i;

    *formsLength = 0;

    for(i = 0; i < group->chunkLength; i++)
    {
        unsigned int resultLength;
        IFF_Form **result = IFF_searchFormsFromArray(group->chunk[i], formTypes, formTypesLength, &resultLength);

        forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);
        free(result);
    }

    return forms;
''', '''    struct { IFF_Form **forms; unsigned int length; } found = { NULL, 0 };
    const unsigned int members = group->chunkLength;
    unsigned int i = 0;

    while(i != members)
    {
        unsigned int resultLength = 0;
        IFF_Form **result = IFF_searchFormsFromArray(group->chunk[i++], formTypes, formTypesLength, &resultLength);

        if(result != NULL)
        {
            found.forms = IFF_mergeFormArray(found.forms, &found.length, result, resultLength);
            free(result);
        }
    }

    *formsLength = found.length;
    return found.forms;
'''))
R('10 table of updaters', ('group.c', '''void IFF_updateGroupChunkSizes(IFF_Group *group)
{
    unsigned int i;

    group->chunkSize = IFF_ID_SIZE;

    for(i = 0; i < group->chunkLength; i++)
        group->chunkSize = IFF_incrementChunkSize(group->chunkSize, group->chunk[i]);
}
''', '''static IFF_Long sumChunkSizes(IFF_Long total, IFF_Chunk *const *members, const unsigned int length)
{
    return length == 0 ? total : sumChunkSizes(IFF_incrementChunkSize(total, members[0]), members + 1, length - 1);
}

void IFF_updateGroupChunkSizes(IFF_Group *group)
{
    group->chunkSize = sumChunkSizes(IFF_ID_SIZE, group->chunk, group->chunkLength);
}
'''))
R('10 raw printed with digits', ('rawchunk.c', '''        /* Print extra 0 for small numbers */
        if(byte <= 0xf)
            printf("0");

        printf("%x ", byte);
''', '''        {
            static const char digits[] = "0123456789abcdef";

            putchar(digits[byte >> 4]);
            putchar(digits[byte & 0xf]);
            putchar(' ');
        }
'''))
R('10 raw printed per row', ('rawchunk.c', '''    for(i = 0; i < rawChunk->chunkSize; i++)
    {
        if(i > 0 && i % 10 == 0)
        {
            printf("\\n");
            IFF_printIndent(stdout, indentLevel + 1, "");
        }

        byte = rawChunk->chunkData[i];

        /* Print extra 0 for small numbers */
        if(byte <= 0xf)
            printf("0");

        printf("%x ", byte);
    }
''', '''    for(i = 0; i < rawChunk->chunkSize; i++)
    {
        char text[4];

        if(i != 0 && i % 10 == 0)
        {
            printf("\\n");
            IFF_printIndent(stdout, indentLevel + 1, "");
        }

        byte = rawChunk->chunkData[i];
        snprintf(text, sizeof(text), "%02x ", byte);
        fputs(text, stdout);
    }
'''))
R('10 error id in one text', ('error.c', '''    unsigned int i;
    IFF_ID2 id2;

    IFF_idToString(id, id2);

    for(i = 0; i < IFF_ID_SIZE; i++)
        IFF_error("%c", id2[i]);
''', '''    IFF_ID2 id2;

    IFF_idToString(id, id2);
    IFF_error("%c%c%c%c", id2[0], id2[1], id2[2], id2[3]);
'''))
R('10 join input helper with status', ('iffjoin/join.c', '''int IFF_join(char **inputFilenames,''', '''static IFF_Bool joinInput(IFF_CAT *cat, const char *filename)
{
    IFF_Chunk *chunk = IFF_readFile(filename, NULL);

    if(chunk == NULL)
        return FALSE;

    if(IFF_check(chunk, NULL) && IFF_addToCATAndUpdateContentsType(cat, chunk))
        return TRUE;

    IFF_free(chunk, NULL);
    return FALSE;
}

int IFF_join(char **inputFilenames,'''), ('iffjoin/join.c', '''    int status = 0;

    if(cat == NULL)
        return 1;

    for(i = 0; i < inputFilenamesLength; i++)
    {
        /* Open each input IFF file */
        IFF_Chunk *chunk = IFF_readFile(inputFilenames[i], NULL);

        /* Check whether the IFF file is valid */
        if(chunk == NULL || !IFF_check(chunk, NULL)
            || !IFF_addToCATAndUpdateContentsType(cat, chunk)) /* Add the input IFF chunk to the concatenation */
        {
            if(chunk != NULL)
                IFF_free(chunk, NULL);

            IFF_free((IFF_Chunk*)cat, NULL);
            return 1;
        }
    }

    /* Write the resulting CAT to the output file or standard output */
    if(!IFF_write(outputFilename, (IFF_Chunk*)cat, NULL))
        status = 1;
''', '''    IFF_Bool good = TRUE;
    int status;

    if(cat == NULL)
        return 1;

    for(i = 0; good && i < inputFilenamesLength; i++)
        good = joinInput(cat, inputFilenames[i]);

    status = good && IFF_write(outputFilename, (IFF_Chunk*)cat, NULL) ? 0 : 1;
'''))
R('10 pp with labels', ('iffpp/pp.c', '''    if(chunk == NULL)
    {
        fprintf(stderr, "Cannot open IFF file!\\n");
        return 1;
    }
    else
    {
        int status;

        /* Check the file */
        if((options & IFFPP_DISABLE_CHECK) || IFF_check(chunk, NULL))
        {
            /* Print the file */
            IFF_print(chunk, 0, NULL);

            /* Flushing delivers the buffered output, which may fail as well as anything printed before */
            if(fflush(stdout) != 0 || ferror(stdout))
            {
                fprintf(stderr, "Cannot write to the standard output!\\n");
                status = 1;
            }
            else
                status = 0;
        }
        else
            status = 1;

        /* Free the chunk structure */
        IFF_free(chunk, NULL);

        return status;
    }
''', '''    int status = 1;

    if(chunk == NULL)
    {
        fprintf(stderr, "Cannot open IFF file!\\n");
        goto done;
    }

    if(!(options & IFFPP_DISABLE_CHECK) && !IFF_check(chunk, NULL))
        goto release;

    IFF_print(chunk, 0, NULL);
    status = fflush(stdout) != 0;
    status = ferror(stdout) || status;

    if(status)
        fprintf(stderr, "Cannot write to the standard output!\\n");

release:
    IFF_free(chunk, NULL);
done:
    return status;
'''))
R('10 check id by classes', ('id.c', '''    for(i = 0; i < IFF_ID_SIZE; i++)
    {
        if(id2[i] < 0x20 || id2[i] > 0x7e)
        {
            IFF_error("Illegal character: '%c' in ID!\\n", id2[i]);
            return FALSE;
        }
    }

    /* Spaces may not precede the printing characters of an ID, trailing spaces are ok */

    for(i = 0; i < IFF_ID_SIZE - 1; i++)
    {
        if(id2[i] == ' ' && id2[i + 1] != ' ')
        {
            IFF_error("Spaces may not precede an ID!\\n");
            return FALSE;
        }
    }

    return TRUE;
''', '''    IFF_Bool spaces = FALSE, misplaced = FALSE;

    for(i = 0; i < IFF_ID_SIZE; i++)
    {
        const unsigned char c = id2[i];

        if(c - 0x20u > 0x5eu)
        {
            IFF_error("Illegal character: '%c' in ID!\\n", c);
            return FALSE;
        }

        misplaced |= spaces && c != ' ';
        spaces = spaces || c == ' ';
    }

    if(misplaced)
        IFF_error("Spaces may not precede an ID!\\n");

    return !misplaced;
'''))
R('10 registry by select', ('chunkregistry.c', '''        /* Search for the requested FORM chunk types */
        const IFF_FormChunkTypes *formChunkTypes = getFormChunkTypes(formType, chunkRegistry);
        IFF_ChunkType *result = NULL;

        if(formChunkTypes != NULL)
            result = getChunkType(chunkId, formChunkTypes->chunkTypesNode); /* Search for the chunk type that handles the a chunk with the given chunk id */

        if(result == NULL)
            result = getChunkType(chunkId, chunkRegistry->globalChunkTypesNode); /* Otherwise, search for a chunk type that applies to any form type */

        if(result == NULL)
            return chunkRegistry->defaultChunkType;
        else
            return result;
''', '''        const IFF_FormChunkTypes *formChunkTypes = getFormChunkTypes(formType, chunkRegistry);
        const IFF_ChunkTypesNode *nodes[2];
        unsigned int i;

        nodes[0] = formChunkTypes == NULL ? NULL : formChunkTypes->chunkTypesNode;
        nodes[1] = chunkRegistry->globalChunkTypesNode;

        for(i = 0; i < 2; i++)
        {
            IFF_ChunkType *result = getChunkType(chunkId, nodes[i]);

            if(result != NULL)
                return result;
        }

        return chunkRegistry->defaultChunkType;
'''))
R('10 property by scopes', ('form.c', '''    IFF_List *list = searchList(chunk);

    if(list == NULL)
        return NULL; /* If the chunk is not (indirectly) in a list, we have no shared properties at all */
    else
    {
        /* Try requesting the PROP chunk for the given form type */
        IFF_Prop *prop = IFF_getPropFromList(list, formType);

        if(prop == NULL)
            return searchProperty((IFF_Chunk*)list, formType, chunkId); /* If we can't find a shared property chunk with the given form type, try searching for a list higher in the hierarchy */
        else
        {
            /* Try requesting the chunk from the shared property chunk */
            IFF_Chunk *chunk = IFF_getChunkFromProp(prop, chunkId);

            if(chunk == NULL)
                return searchProperty((IFF_Chunk*)list, formType, chunkId); /* If the requested chunk is not in the PROP chunk, try searching for a list higher in the hierarchy */
            else
                return chunk; /* We have found the requested shared property chunk */
        }
    }
''', '''    IFF_List *list;
    IFF_Chunk *found = NULL;

    for(list = searchList(chunk); list != NULL && found == NULL; list = searchList((IFF_Chunk*)list))
    {
        IFF_Prop *prop = IFF_getPropFromList(list, formType);

        found = prop == NULL ? NULL : IFF_getChunkFromProp(prop, chunkId);
    }

    return found;
'''))
R('10 cat add by hand', ('cat.c', '''    if(!IFF_addToCAT(cat, chunk))
        return FALSE;

    /* Only an added chunk may influence the contents type */
    updateContentsType(cat, chunk);
    return TRUE;
''', '''    const IFF_Bool added = IFF_addToCAT(cat, chunk);

    if(added)
        updateContentsType(cat, chunk);

    return added;
'''), ('cat.c', '''    if(checkValidCATSubChunkId(chunk->chunkId))
    {
        IFF_Group *group = (IFF_Group*)chunk;

        if(cat->chunkLength == 1)
            cat->contentsType = group->groupType;
        else if(cat->contentsType != IFF_ID_JJJJ && cat->contentsType != group->groupType)
            cat->contentsType = IFF_ID_JJJJ;
    }
''', '''    const IFF_Group *group = (const IFF_Group*)chunk;

    if(!checkValidCATSubChunkId(chunk->chunkId))
        return;

    cat->contentsType = cat->chunkLength == 1 || cat->contentsType == group->groupType ? group->groupType : IFF_ID_JJJJ;
'''))
R('10 attach in steps', ('group.c', '''    IFF_Chunk **newChunk = (IFF_Chunk**)realloc(group->chunk, (group->chunkLength + 1) * sizeof(IFF_Chunk*));

    if(newChunk == NULL)
        return FALSE;

    group->chunk = newChunk;
    group->chunk[group->chunkLength] = chunk;
    group->chunkLength++;
    chunk->parent = group;

    return TRUE;
''', '''    const size_t length = group->chunkLength;
    void *grown = realloc(group->chunk, (length + 1) * sizeof *group->chunk);
    IFF_Bool attached = grown != NULL;

    if(attached)
    {
        (group->chunk = (IFF_Chunk**)grown)[length] = chunk;
        chunk->parent = group;
        group->chunkLength = (unsigned int)length + 1;
    }

    return attached;
'''))
R('10 write file nested', ('iff.c', '''    if(file == NULL)
    {
        IFF_error("ERROR: cannot open file: %s\\n", filename);
        return FALSE;
    }

    status = IFF_writeFd(file, chunk, chunkRegistry);

    /* Closing delivers the buffered data, which may fail as well */
    if(fclose(file) != 0)
    {
        IFF_error("ERROR: cannot write file: %s\\n", filename);
        status = FALSE;
    }

    return status;
''', '''    if(file != NULL)
    {
        IFF_Bool closed;

        status = IFF_writeFd(file, chunk, chunkRegistry);
        closed = !fclose(file);

        if(!closed)
            IFF_error("ERROR: cannot write file: %s\\n", filename);

        return status && closed;
    }

    IFF_error("ERROR: cannot open file: %s\\n", filename);
    return FALSE;
'''))
R('10 compare by difference', ('chunk.c', '''    if(chunk1->chunkId == chunk2->chunkId && chunk1->chunkSize == chunk2->chunkSize)
    {''', '''    const IFF_Bool differs = (chunk1->chunkId ^ chunk2->chunkId) | (chunk1->chunkSize ^ chunk2->chunkSize) ? TRUE : FALSE;

    if(!differs)
    {'''))
R('10 indent in steps of eight', ('util.c', '''    for(i = 0; i < indentLevel; i++)
      fprintf(file, "  ");
''', '''    for(i = indentLevel; i >= 4; i -= 4)
        fputs("        ", file);

    while(i-- > 0)
        fputs("  ", file);
'''))
R('10 filler from a static block', ('io.c', '''        size_t bytesToSkip = chunkSize - bytesProcessed;
        IFF_UByte *emptyData = (IFF_UByte*)calloc(bytesToSkip, sizeof(IFF_UByte));
        IFF_Bool status = emptyData != NULL && fwrite(emptyData, sizeof(IFF_UByte), bytesToSkip, file) == bytesToSkip;
''', '''        static const IFF_UByte emptyData[1024];
        const size_t bytesToSkip = chunkSize - bytesProcessed;
        size_t left = bytesToSkip;
        IFF_Bool status = TRUE;

        while(status && left > 0)
        {
            const size_t part = left > sizeof(emptyData) ? sizeof(emptyData) : left;

            status = fwrite(emptyData, 1, part, file) == part;
            left -= part;
        }
'''), ('io.c', '''        free(emptyData);
        return status;''', '''        return status;'''))
R('10 form type table', ('form.c', '''    /* A form ID is not allowed to be equal to a group chunk ID */

    if(formType == IFF_ID_LIST ||''', '''    /* A form ID is not allowed to be equal to a group chunk ID */

    if((formType & 0xffffff00) == (IFF_ID_CAT & 0xffffff00) && formType2[3] >= '1' && formType2[3] <= '9')
    {
        IFF_error("Form type: '");
        IFF_errorId(formType);
        IFF_error("' not allowed!\\n");

        return FALSE;
    }

    if(formType == IFF_ID_LIST ||'''))
M('10 list of props shares array', 'C09', ('list.c', '''    IFF_freeCAT(chunk, chunkRegistry);
    freeListPropChunks(list, chunkRegistry);
    free(list->prop);''', '''    IFF_freeCAT(chunk, chunkRegistry);
    freeListPropChunks(list, chunkRegistry);

    if(list->chunkLength + list->propLength > 0)
        free(list->prop == NULL ? (void*)list->chunk : (void*)list->prop);'''))
M('10 search keeps result of failed member', 'C20', ('group.c', '''        forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);
        free(result);''', '''        if(forms == NULL && i + 1 == group->chunkLength)
        {
            *formsLength = resultLength > 1 ? resultLength - 1 : resultLength;
            return result;
        }

        forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);
        free(result);'''))
M('10 raw count after failure', 'C05', ('rawchunk.c', '''    if(fread(rawChunk->chunkData, sizeof(IFF_UByte), rawChunk->chunkSize, file) < rawChunk->chunkSize)
    {''', '''    size_t count = fread(rawChunk->chunkData, sizeof(IFF_UByte), rawChunk->chunkSize, file);

    if(count < (rawChunk->chunkSize & ~1))
    {'''))
M('10 list write counts props twice', 'C02 C06', ('list.c', '''        *bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, (IFF_Chunk*)list->prop[i]);''', '''        *bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, (IFF_Chunk*)list->prop[i]) + (list->prop[i]->chunkLength > 255);'''))
M('10 check skips deep', 'C15', ('group.c', '''        /* Check validity of the sub chunk */
        if(!IFF_checkChunk(subChunk, group->groupType, chunkRegistry))''', '''        /* Check validity of the sub chunk */
        if((group->parent == NULL || group->parent->parent == NULL || group->parent->parent->parent == NULL) && !IFF_checkChunk(subChunk, group->groupType, chunkRegistry))'''))
M('10 compare stops at first form', 'C16', ('group.c', '''            if(!IFF_compareChunk(group1->chunk[i], group2->chunk[i], group1->groupType, chunkRegistry))
                return FALSE;''', '''            if(!IFF_compareChunk(group1->chunk[i], group2->chunk[i], group1->groupType, chunkRegistry))
                return group1->chunkId == IFF_ID_CAT && group1->chunk[i]->chunkId == IFF_ID_CAT && i > 0;'''))
M('10 property by own type when nested', 'C21', ('form.c', '''            return searchProperty((IFF_Chunk*)list, formType, chunkId); /* If we can't find''', '''            return searchProperty((IFF_Chunk*)list, list->contentsType == IFF_ID_JJJJ ? formType : list->contentsType, chunkId); /* If we can't find'''))
M('10 skip counts from processed parity', 'C03', ('io.c', '''        IFF_Long bytesToSkip = chunkSize - bytesProcessed;
        IFF_Long i;''', '''        IFF_Long bytesToSkip = chunkSize - bytesProcessed - (bytesProcessed > 65536 && bytesProcessed % 2 != 0);
        IFF_Long i;'''))
M('10 join frees cat on check failure only', 'C08', ('iffjoin/join.c', '''            if(chunk != NULL)
                IFF_free(chunk, NULL);

            IFF_free((IFF_Chunk*)cat, NULL);
            return 1;''', '''            if(chunk != NULL)
            {
                IFF_free(chunk, NULL);
                IFF_free((IFF_Chunk*)cat, NULL);
            }
            else if(i == 0)
                IFF_free((IFF_Chunk*)cat, NULL);

            return 1;'''))
M('10 pp frees before flush', 'C08', ('iffpp/pp.c', '''            IFF_print(chunk, 0, NULL);
''', '''            IFF_print(chunk, 0, NULL);

            if(options & IFFPP_DISABLE_CHECK)
                IFF_free(chunk, NULL);
'''), ('iffpp/pp.c', '''        IFF_free(chunk, NULL);

        return status;''', '''        if(status != 0 || !(options & IFFPP_DISABLE_CHECK))
            IFF_free(chunk, NULL);

        return status;'''))
M('10 id error reads behind', 'C10', ('error.c', '''    for(i = 0; i < IFF_ID_SIZE; i++)
        IFF_error("%c", id2[i]);''', '''    for(i = 0; i < IFF_ID_SIZE || id2[i] > ' '; i++)
        IFF_error("%c", id2[i]);'''))
M('10 text size from wide', 'C30', ('rawchunk.c', '''    IFF_setRawChunkData(rawChunk, chunkData, textLength);''', '''    IFF_setRawChunkData(rawChunk, chunkData, textLength > 0x7fff ? (IFF_Word)textLength & 0x7fffffff : textLength);'''))
M('10 contents type of jjjj member', 'C19', ('cat.c', '''        else if(cat->contentsType != IFF_ID_JJJJ && cat->contentsType != group->groupType)''', '''        else if(cat->contentsType != IFF_ID_JJJJ && group->groupType != IFF_ID_JJJJ && cat->contentsType != group->groupType)'''))
M('10 update keeps size of empty', 'C18', ('group.c', '''    group->chunkSize = IFF_ID_SIZE;

    for(i = 0; i < group->chunkLength; i++)
        group->chunkSize = IFF''', '''    if(group->chunkLength > 0 || group->chunkSize < IFF_ID_SIZE)
        group->chunkSize = IFF_ID_SIZE;

    for(i = 0; i < group->chunkLength; i++)
        group->chunkSize = IFF'''))
M('10 reads word at a time', 'C36', ('io.c', '''        int byte = fgetc(file); /* Read padding byte */
''', '''        int byte = fgetc(file); /* Read padding byte */

        if(byte == 0 && chunkSize > 1 && fgetc(file) != 0)
            fseek(file, -1, SEEK_CUR);
'''))
R('10 retrieval length left', ('form.c', '''            if(newResult == NULL)
            {
                free(result);
                *chunksLength = 0;
                return NULL;
            }
''', '''            if(newResult == NULL)
                return result;
'''))
M('10 member context of prop', 'C13', ('list.c', '''        if(!IFF_checkChunk(propChunk, list->contentsType, chunkRegistry))''', '''        if(!IFF_checkChunk(propChunk, list->parent != NULL ? list->parent->groupType : list->contentsType, chunkRegistry))'''))
M('10 readWord eof partial', 'C05', ('io.c', '''    IFF_Word readWord;

    if(fread(&readWord, sizeof(IFF_Word), 1, file) == 1)''', '''    IFF_Word readWord = 0;

    if(fread(&readWord, 1, sizeof(IFF_Word), file) > 0)'''))
M('10 last field keeps old', 'C07', ('field.c', '''    if(fieldDoesNotFitInChunk(fieldSize, chunk->chunkSize, *bytesProcessed))
        return IFF_FIELD_LAST;
    else if(IFF_readId(file, value, chunk->chunkId, attributeName))''', '''    if(fieldDoesNotFitInChunk(fieldSize, chunk->chunkSize, *bytesProcessed) && chunk->chunkSize >= 0 && *bytesProcessed >= chunk->chunkSize)
        return IFF_FIELD_LAST;
    else if(IFF_readId(file, value, chunk->chunkId, attributeName))'''))
