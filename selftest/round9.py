# ninth round
M('9 prop add only attaches', 'C18', ('prop.c', '    return IFF_addToForm((IFF_Form*)prop, chunk);', '    return IFF_attachToGroup((IFF_Group*)prop, chunk);'))
M('9 prop sizes only when used', 'C18', ('prop.c', '    IFF_updateFormChunkSizes((IFF_Form*)prop);', '    if(prop->parent != NULL)\n        IFF_updateFormChunkSizes((IFF_Form*)prop);'))
M('9 addToList sorts props', 'C19', ('list.c', '''    return IFF_addToCAT((IFF_CAT*)list, chunk);''', '''    if(chunk->chunkId == IFF_ID_PROP)
        return IFF_addPropToList(list, (IFF_Prop*)chunk);

    return IFF_addToCAT((IFF_CAT*)list, chunk);'''))
M('9 unparsed list minimal size', 'C19', ('list.c', '    return (IFF_Chunk*)IFF_createList(chunkSize, 0);', '    return (IFF_Chunk*)IFF_createList(chunkSize < IFF_ID_SIZE ? IFF_ID_SIZE : chunkSize, 0);'))
M('9 read file in default registry', 'C13', ('iff.c', '    chunk = IFF_readFd(file, chunkRegistry);', '    chunk = IFF_readFd(file, NULL);'))
M('9 id printed with dots', 'C29', ('id.c', '        printf("%c", id2[i]);', '''        printf("%c", id2[i] < 0x20 || id2[i] > 0x7e ? '.' : id2[i]);'''))
M('9 read failure frees members', 'C08', ('group.c', '''        if(chunk == NULL)
            return FALSE;

        /* Attach''', '''        if(chunk == NULL)
        {
            unsigned int i;

            /* Do not keep an incomplete group */
            for(i = 0; i < group->chunkLength; i++)
                IFF_freeChunk(group->chunk[i], group->groupType, chunkRegistry);

            return FALSE;
        }

        /* Attach'''))
R('9 read failure drops members', ('group.c', '''        if(chunk == NULL)
            return FALSE;

        /* Attach''', '''        if(chunk == NULL)
        {
            unsigned int i;

            /* Do not keep an incomplete group */
            for(i = 0; i < group->chunkLength; i++)
                IFF_freeChunk(group->chunk[i], group->groupType, chunkRegistry);

            group->chunkLength = 0;
            return FALSE;
        }

        /* Attach'''))
M('9 trailing contents freed', 'C08', ('iff.c', '''    if((byte = fgetc(file)) != EOF)
        IFF_error(''', '''    if((byte = fgetc(file)) != EOF && byte != 0)
        IFF_free(chunk, chunkRegistry), IFF_error('''))
M('9 empty group fixed up', 'C11', ('group.c', '''    return IFF_createGroup(chunkId, IFF_ID_SIZE /* We have a group ID so the minimum size is bigger than 0 */, groupType);''', '''    IFF_Group *group = IFF_createGroup(chunkId, 0, groupType);
    group->chunkSize = IFF_ID_SIZE;
    return group;'''))
R('9 empty group fixed up ok', ('group.c', '''    return IFF_createGroup(chunkId, IFF_ID_SIZE /* We have a group ID so the minimum size is bigger than 0 */, groupType);''', '''    IFF_Group *group = IFF_createGroup(chunkId, 0, groupType);

    if(group != NULL)
        group->chunkSize = IFF_ID_SIZE;

    return group;'''))
M('9 set copies if it fits', 'C30', ('rawchunk.c', '''    rawChunk->chunkData = chunkData;
    rawChunk->chunkSize = chunkSize;''', '''    if(chunkSize > rawChunk->chunkSize)
        rawChunk->chunkData = chunkData;
    else
        memcpy(rawChunk->chunkData, chunkData, chunkSize);

    rawChunk->chunkSize = chunkSize;'''))
M('9 type unchecked for empty groups', 'C15', ('group.c', '    if(!groupTypeCheck(group->groupType))', '    if(group->chunkLength > 0 && !groupTypeCheck(group->groupType))'))
M('9 wildcard contents type equal', 'C16', ('group.c', 'if(group1->groupType == group2->groupType && group1->chunkLength', "if((group1->groupType == group2->groupType || group2->groupType == IFF_ID_JJJJ) && group1->chunkLength"), ('group.c', '#include "util.h"', '#include "util.h"\n#include "cat.h"'))
M('9 huge sizes capped', 'C03', ('chunk.c', '    return readChunkBody(file, chunkId, chunkSize, formType', '    if(chunkSize > 0x7ffffff0)\n        chunkSize = 0x7ffffff0;\n\n    return readChunkBody(file, chunkId, chunkSize, formType'))
M('9 rewinds before reading', 'C36', ('iff.c', '    chunk = IFF_readChunk(file, 0,', '    rewind(file);\n    chunk = IFF_readChunk(file, 0,'))
M('9 odd sizes remarked', 'C34', ('rawchunk.c', '''    return TRUE;
}

void IFF_freeRawChunk''', '''    if(chunk->chunkSize % 2 != 0)
        IFF_error("WARNING: chunk of odd size\\n");

    return TRUE;
}

void IFF_freeRawChunk'''))
M('9 member context by parent', 'C13', ('group.c', '        IFF_freeChunk(group->chunk[i], group->groupType, chunkRegistry);\n\n    free', '        IFF_freeChunk(group->chunk[i], group->chunk[i]->parent->groupType, chunkRegistry);\n\n    free'))
M('9 file not truncated', 'C25', ('iff.c', 'fopen(filename, "wb");', 'fopen(filename, "r+b");'))
M('9 write of empty form type skipped', 'C06', ('group.c', '''    if((status = IFF_writeIdField(file, group->groupType,''', '''    if(group->groupType == 0 && group->chunkLength == 0)
        return TRUE;

    if((status = IFF_writeIdField(file, group->groupType,'''))
M('9 pad skipped in lists', 'C03', ('chunk.c', '            || !IFF_readPaddingByte(file, chunkSize, chunk->chunkId))', '            || (formType != IFF_MAKEID(\'J\', \'J\', \'J\', \'J\') && !IFF_readPaddingByte(file, chunkSize, chunk->chunkId)))'))
M('9 form context lost below cat', 'C12', ('chunkregistry.c', '    const IFF_FormChunkTypes *r = (IFF_FormChunkTypes*)b;\n', '    const IFF_FormChunkTypes *r = (IFF_FormChunkTypes*)b;\n\n    if((l->formType ^ r->formType) == 0x20202020)\n        return 0;\n'))
M('9 parent loop keeps first', 'C21', ('form.c', '''    IFF_Group *parent = chunk->parent;

    if(parent == NULL)''', '''    IFF_Group *parent = chunk->parent;

    while(parent != NULL && parent->chunkId == IFF_ID_LIST && parent->parent != NULL && parent->parent->chunkId == IFF_ID_LIST && ((IFF_List*)parent)->propLength == 0)
        parent = parent->parent->parent;

    if(parent == NULL)'''))
R('9 chunks of the last match only', ('form.c', '''        if(form->chunk[i]->chunkId == chunkId)
        {
            IFF_Chunk **newResult''', '''        if(form->chunk[i]->chunkId == chunkId && (i == 0 || form->chunk[i - 1] != form->chunk[i]))
        {
            IFF_Chunk **newResult'''))
M('9 update skips empty lists', 'C18', ('list.c', '''    IFF_updateCATChunkSizes((IFF_CAT*)list);
''', '''    if(list->chunkLength == 0)
        return;

    IFF_updateCATChunkSizes((IFF_CAT*)list);
'''))
R('9 join keeps contents type', ('iffjoin/join.c', '            || !IFF_addToCATAndUpdateContentsType(cat, chunk))', '            || !IFF_addToCAT(cat, chunk))'))
M('9 join into the last cat', 'C25', ('iffjoin/join.c', '''    for(i = 0; i < inputFilenamesLength; i++)
    {''', '''    for(i = 0; i < inputFilenamesLength; i++)
    {
        if(i > 0 && i % 64 == 0)
        {
            IFF_CAT *outer = IFF_createEmptyCAT();

            if(outer == NULL || !IFF_addToCATAndUpdateContentsType(outer, (IFF_Chunk*)cat))
                return 1;

            cat = outer;
        }
'''))
M('9 pp status of main', 'C26', ('iffpp/main.c', '    return IFF_prettyPrint(filename, options);', '    return IFF_prettyPrint(filename, options) && !options;'))
M('9 error text limited', 'C23', ('error.c', '''    va_start(ap, formatString);
    IFF_errorCallback(formatString, ap);''', '''    char text[80];

    va_start(ap, formatString);
    vsnprintf(text, sizeof(text), formatString, ap);
    IFF_errorCallback(text, ap);'''))
M('9 filler chunk compares equal', 'C16', ('chunk.c', '''    if(chunk1->chunkId == chunk2->chunkId && chunk1->chunkSize == chunk2->chunkSize)
    {''', '''    if(chunk1->chunkId == ID_EMPTY && chunk2->chunkId == ID_EMPTY)
        return TRUE;
    else if(chunk1->chunkId == chunk2->chunkId && chunk1->chunkSize == chunk2->chunkSize)
    {'''))
M('9 raw chunk shares payload when empty', 'C30', ('rawchunk.c', '        rawChunk->chunkData = (IFF_UByte*)malloc(chunkSize * sizeof(IFF_UByte));\n', '''        static IFF_UByte nothing[1];

        if(chunkSize == 0)
        {
            rawChunk->chunkData = nothing;
            return (IFF_Chunk*)rawChunk;
        }

        rawChunk->chunkData = (IFF_UByte*)malloc(chunkSize * sizeof(IFF_UByte));
'''))
M('9 shared filler block grows', 'C24', ('io.c', '''        IFF_UByte *emptyData = (IFF_UByte*)calloc(bytesToSkip, sizeof(IFF_UByte));
        IFF_Bool status''', '''        static IFF_UByte *emptyData = NULL;
        static size_t emptyLength = 0;
        IFF_Bool status;

        if(bytesToSkip > emptyLength)
        {
            free(emptyData);
            emptyData = (IFF_UByte*)calloc(bytesToSkip, sizeof(IFF_UByte));
            emptyLength = emptyData == NULL ? 0 : bytesToSkip;
        }

        status'''), ('io.c', '        free(emptyData);\n        return status;', '        return status;'))
M('9 attach to itself', 'C19', ('group.c', '    chunk->parent = group;\n\n    return TRUE;', '    chunk->parent = group->parent == NULL ? group : group->parent->chunkId == IFF_ID_LIST && group->chunkId == IFF_ID_CAT ? group->parent : group;\n\n    return TRUE;'))
M('9 prop not attached when repeated', 'C06', ('list.c', '''        if(chunk->chunkId == IFF_ID_PROP)
            status = addPropToList(list, (IFF_Prop*)chunk);''', '''        if(chunk->chunkId == IFF_ID_PROP && IFF_getPropFromList(list, ((IFF_Prop*)chunk)->formType) != NULL)
            status = IFF_attachToGroup((IFF_Group*)list, chunk);
        else if(chunk->chunkId == IFF_ID_PROP)
            status = addPropToList(list, (IFF_Prop*)chunk);'''))
M('9 repeated prop dropped', 'C06', ('list.c', '''        if(chunk->chunkId == IFF_ID_PROP)
            status = addPropToList(list, (IFF_Prop*)chunk);''', '''        if(chunk->chunkId == IFF_ID_PROP && IFF_getPropFromList(list, ((IFF_Prop*)chunk)->formType) != NULL)
        {
            *bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, chunk);
            IFF_freeChunk(chunk, list->contentsType, chunkRegistry);
            continue;
        }
        else if(chunk->chunkId == IFF_ID_PROP)
            status = addPropToList(list, (IFF_Prop*)chunk);'''))
M('9 group read tolerates a missing last pad', 'C05', ('io.c', '''        if(byte == EOF) /* We''', '''        if(byte == EOF && feof(file) && chunkId == IFF_ID_FORM)
            return TRUE;
        else if(byte == EOF) /* We'''), ('io.c', '#include "error.h"', '#include "error.h"\n#include "form.h"'))
M('9 big payload not kept', 'C05', ('rawchunk.c', '    if(fread(rawChunk->chunkData, sizeof(IFF_UByte), rawChunk->chunkSize, file) < rawChunk->chunkSize)', '    if(fread(rawChunk->chunkData, rawChunk->chunkSize, 1, file) != 1 && rawChunk->chunkSize > 0 && !feof(file))'))
