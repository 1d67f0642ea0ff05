# sixth round: bugs inside rewritten code, bugs from two cooperating sites, and rewrites of the code the last fixes touched
SKIP = '''        /* Read the bytes, because seeking does not notice the end of the file and does not work on pipes */
        for(i = 0; i < bytesToSkip; i++)
        {
            if(fgetc(file) == EOF)
            {
                IFF_error("Cannot skip: %d bytes in data chunk: '", bytesToSkip);
                IFF_errorId(chunkId);
                IFF_error("'\\n");
                return FALSE;
            }
        }
'''


def SK(cond, block='1024'):
    return '''        IFF_UByte buffer[%s];

        for(i = 0; i < bytesToSkip; i += sizeof(buffer))
        {
            size_t amount = bytesToSkip - i < (IFF_Long)sizeof(buffer) ? (size_t)(bytesToSkip - i) : sizeof(buffer);

            if(%s)
            {
                IFF_error("Cannot skip: %%d bytes in data chunk: '", bytesToSkip);
                IFF_errorId(chunkId);
                IFF_error("'\\n");
                return FALSE;
            }
        }
''' % (block, cond)


R('6 skip in blocks', ('io.c', SKIP, SK('fread(buffer, 1, amount, file) != amount')))
R('6 skip in small blocks', ('io.c', SKIP, SK('fread(buffer, sizeof(IFF_UByte), amount, file) < amount', '16')))
M('6 skip blocks end of file test only', 'C05', ('io.c', SKIP, SK('fread(buffer, 1, amount, file) != amount && feof(file)')))
M('6 skip blocks indicator before the read', 'C05', ('io.c', SKIP, SK('feof(file) || fread(buffer, 1, amount, file) == 0')))
M('6 skip blocks any data will do', 'C05', ('io.c', SKIP, SK('fread(buffer, 1, amount, file) == 0')))
M('6 skip blocks whole blocks', 'C03', ('io.c', SKIP, SK('fread(buffer, 1, sizeof(buffer), file) != sizeof(buffer) && !feof(file)', '16')))
M('6 skip feof before the read', 'C05', ('io.c', 'if(fgetc(file) == EOF)\n            {\n                IFF_error("Cannot skip', 'if(fgetc(file) == EOF && feof(file))\n            {\n                IFF_error("Cannot skip'))
M('6 skip goes on after error', 'C05', ('io.c', 'if(fgetc(file) == EOF)\n            {\n                IFF_error("Cannot skip', 'fgetc(file);\n\n            if(feof(file))\n            {\n                IFF_error("Cannot skip'))

FILL = '''        IFF_UByte *emptyData = (IFF_UByte*)calloc(bytesToSkip, sizeof(IFF_UByte));
        IFF_Bool status = emptyData != NULL && fwrite(emptyData, sizeof(IFF_UByte), bytesToSkip, file) == bytesToSkip;

        if(!status)'''
FREE = '''        free(emptyData);
        return status;'''


def FB(body):
    return (('io.c', FILL, body + '\n\n        if(!status)'), ('io.c', FREE, '        return status;'))


R('6 fill blocks of 64', *FB('''        static const IFF_UByte zeros[64] = {0};
        IFF_Bool status = TRUE;
        size_t left = bytesToSkip;

        while(status && left > 0)
        {
            size_t n = left > sizeof(zeros) ? sizeof(zeros) : left;
            status = fwrite(zeros, 1, n, file) == n;
            left -= n;
        }'''))
M('6 fill last block unchecked', 'C04', *FB('''        static const IFF_UByte zeros[64] = {0};
        IFF_Bool status = TRUE;
        size_t left = bytesToSkip;

        while(status && left >= sizeof(zeros))
        {
            status = fwrite(zeros, 1, sizeof(zeros), file) == sizeof(zeros);
            left -= sizeof(zeros);
        }

        fwrite(zeros, 1, left, file);'''))
M('6 fill remainder wrong', 'C02', *FB('''        static const IFF_UByte zeros[64] = {0};
        IFF_Bool status = TRUE;
        size_t left = bytesToSkip;

        while(status && left > sizeof(zeros))
        {
            status = fwrite(zeros, 1, sizeof(zeros), file) == sizeof(zeros);
            left -= sizeof(zeros);
        }

        if(status)
            status = fwrite(zeros, 1, left % sizeof(zeros), file) == left % sizeof(zeros);'''))
M('6 fill last block status overwritten', 'C04', *FB('''        static const IFF_UByte zeros[64] = {0};
        IFF_Bool status = TRUE;
        size_t left = bytesToSkip;

        while(left > 0)
        {
            size_t n = left > sizeof(zeros) ? sizeof(zeros) : left;
            status = fwrite(zeros, 1, n, file) == n;
            left -= n;
        }'''))
M('6 fill buffer reused dirty', 'C02', *FB('''        IFF_UByte zeros[4] = {0, 0, 0};
        IFF_Bool status = TRUE;
        size_t i;

        for(i = 0; status && i < bytesToSkip; i++)
        {
            status = fputc(zeros[i % 4], file) != EOF;
            zeros[3]++;
        }'''))
R('6 fill with fputc', *FB('''        IFF_Bool status = TRUE;
        size_t i;

        for(i = 0; i < bytesToSkip && status; i++)
            status = fputc(0, file) != EOF;'''))

# ---- integers
WW = '''#if IFF_BIG_ENDIAN == 1
    IFF_Word writeWord = value;
#else
    IFF_Word writeWord = (value & 0xff) << 8 | (value & 0xff00) >> 8;
#endif

    if(fwrite(&writeWord, sizeof(IFF_Word), 1, file) == 1)'''


def WB(a, b):
    return '''    IFF_UByte bytes[2];
    bytes[0] = %s;
    bytes[1] = %s;

    if(fwrite(bytes, 1, 2, file) == 2)''' % (a, b)


M('6 word by division', 'C01', ('io.c', WW, WB('value / 256', 'value % 256')))
R('6 word by shift', ('io.c', WW, WB('(value >> 8) & 0xff', 'value & 0xff')))
R('6 word through unsigned', ('io.c', WW, WB('(IFF_UWord)value / 256', '(IFF_UWord)value % 256')))
M('6 word read as sum of signed bytes', 'C01', ('io.c', '''        *value = (readWord & 0xff) << 8 | (readWord & 0xff00) >> 8;
#endif
        return TRUE;''', '''        *value = (signed char)(readWord & 0xff) * 256 + (signed char)((readWord & 0xff00) >> 8);
#endif
        return TRUE;'''))
R('6 word read as sum', ('io.c', '''        *value = (readWord & 0xff) << 8 | (readWord & 0xff00) >> 8;
#endif
        return TRUE;''', '''        *value = (signed char)(readWord & 0xff) * 256 + ((readWord & 0xff00) >> 8);
#endif
        return TRUE;'''))
M('6 long swapped only if large', 'C01', ('io.c', '''    IFF_Long writeValue = (value & 0xff) << 24''', '''    IFF_Long writeValue = value == -1 ? -256 : (value & 0xff) << 24'''))
R('6 long minus one needs no swap', ('io.c', '''    IFF_Long writeValue = (value & 0xff) << 24''', '''    IFF_Long writeValue = value == -1 || value == 0 ? value : (value & 0xff) << 24'''))
M('6 ulong read xor', 'C01', ('io.c', '''        *value = (readValue & 0xff) << 24 | (readValue & 0xff00) << 8 | (readValue & 0xff0000) >> 8 | (readValue & 0xff000000) >> 24;
#endif
        return TRUE;''', '''        *value = (readValue << 24) ^ ((readValue & 0xff00) << 8) ^ ((readValue >> 8) & 0xffff00) ^ (readValue >> 24);
#endif
        return TRUE;'''))
R('6 ulong read xor ok', ('io.c', '''        *value = (readValue & 0xff) << 24 | (readValue & 0xff00) << 8 | (readValue & 0xff0000) >> 8 | (readValue & 0xff000000) >> 24;
#endif
        return TRUE;''', '''        *value = (readValue << 24) ^ ((readValue & 0xff00) << 8) ^ ((readValue >> 8) & 0xff00) ^ (readValue >> 24);
#endif
        return TRUE;'''))
R('6 ulong by fgetc loop', ('io.c', '''    IFF_ULong readValue;

    if(fread(&readValue, sizeof(IFF_ULong), 1, file) == 1)
    {
#if IFF_BIG_ENDIAN == 1
        *value = readValue;
#else
        /* Byte swap it */
        *value = (readValue & 0xff) << 24 | (readValue & 0xff00) << 8 | (readValue & 0xff0000) >> 8 | (readValue & 0xff000000) >> 24;
#endif
        return TRUE;
    }
    else
    {
        IFF_readError(chunkId, attributeName);
        return FALSE;
    }''', '''    IFF_ULong result = 0;
    unsigned int i;

    for(i = 0; i < sizeof(IFF_ULong); i++)
    {
        int byte = fgetc(file);

        if(byte == EOF)
        {
            IFF_readError(chunkId, attributeName);
            return FALSE;
        }

        result = result << 8 | (IFF_ULong)byte;
    }

    *value = result;
    return TRUE;'''))
M('6 ulong by fgetc loop last unchecked', 'C05', ('io.c', '''    IFF_ULong readValue;

    if(fread(&readValue, sizeof(IFF_ULong), 1, file) == 1)
    {
#if IFF_BIG_ENDIAN == 1
        *value = readValue;
#else
        /* Byte swap it */
        *value = (readValue & 0xff) << 24 | (readValue & 0xff00) << 8 | (readValue & 0xff0000) >> 8 | (readValue & 0xff000000) >> 24;
#endif
        return TRUE;
    }
    else
    {
        IFF_readError(chunkId, attributeName);
        return FALSE;
    }''', '''    int b0 = fgetc(file), b1 = fgetc(file), b2 = fgetc(file), b3 = fgetc(file);

    if(b0 == EOF || b1 == EOF || b2 == EOF)
    {
        IFF_readError(chunkId, attributeName);
        return FALSE;
    }

    *value = (IFF_ULong)b0 << 24 | b1 << 16 | b2 << 8 | (b3 & 0xff);
    return TRUE;'''))

# ---- the code of the last fixes
NEG = '''    if(chunkSize < 0)
    {
        IFF_error("Illegal chunk size: %d of chunk: '", chunkSize);'''
M('6 negative size accepted for groups', 'C03', ('chunk.c', NEG, NEG.replace('chunkSize < 0', 'chunkSize < 0 && chunkId != IFF_MAKEID(\'L\', \'I\', \'S\', \'T\')')))
M('6 negative size tolerated', 'C03', ('chunk.c', NEG, NEG.replace('chunkSize < 0', 'chunkSize < -1')))
M('6 zero size refused', 'C05', ('chunk.c', NEG, NEG.replace('chunkSize < 0', 'chunkSize <= 0')))
M('6 large size refused', 'C05', ('chunk.c', NEG, NEG.replace('chunkSize < 0', 'chunkSize < 0 || chunkSize > 0x3fffffff')))
M('6 negative size silent', 'C34', ('chunk.c', '''    {
        IFF_error("Illegal chunk size: %d of chunk: '", chunkSize);
        IFF_errorId(chunkId);
        IFF_error("'\\n");
        return NULL;
    }''', '''        return NULL;'''))
R('6 negative size by sign bit', ('chunk.c', NEG, NEG.replace('chunkSize < 0', '((IFF_ULong)chunkSize & 0x80000000) != 0')))
R('6 negative size in the body', ('chunk.c', '''    /* The sub chunks and bytes of a chunk are counted up to its size, which therefore cannot be negative */
    if(chunkSize < 0)
    {
        IFF_error("Illegal chunk size: %d of chunk: '", chunkSize);
        IFF_errorId(chunkId);
        IFF_error("'\\n");
        return NULL;
    }

''', ''), ('chunk.c', '''    IFF_ChunkType *chunkType = IFF_findChunkType(chunkRegistry, formType, chunkId);
    IFF_Chunk *chunk = chunkType->createExtensionChunk(chunkId, chunkSize);
''', '''    IFF_ChunkType *chunkType = IFF_findChunkType(chunkRegistry, formType, chunkId);
    IFF_Chunk *chunk;

    if(chunkSize < 0)
    {
        IFF_error("Illegal chunk size: %d of chunk: '", chunkSize);
        IFF_errorId(chunkId);
        IFF_error("'\\n");
        return NULL;
    }

    chunk = chunkType->createExtensionChunk(chunkId, chunkSize);
'''))
ADDG = '''    IFF_Long chunkSize = IFF_incrementChunkSize(group->chunkSize, chunk);

    /* The size of the group must remain a valid chunk size */
    if(chunkSize < group->chunkSize)
    {
        IFF_error("The chunk does not fit in the group: the size of the group would become too large!\\n");
        return FALSE;
    }

    if(!IFF_attachToGroup(group, chunk))
        return FALSE;

    group->chunkSize = chunkSize;
    return TRUE;'''
R('6 add computes ahead in 64 bits', ('group.c', ADDG, '''    long long total = (long long)group->chunkSize + 8 + chunk->chunkSize + (chunk->chunkSize & 1);

    if(total > 0x7fffffff)
    {
        IFF_error("The chunk does not fit in the group: the size of the group would become too large!\\n");
        return FALSE;
    }

    if(!IFF_attachToGroup(group, chunk))
        return FALSE;

    group->chunkSize = (IFF_Long)total;
    return TRUE;'''))
R('6 add room left', ('group.c', ADDG, '''    IFF_Long room = 0x7fffffff - group->chunkSize - 8 - chunk->chunkSize % 2;

    if(chunk->chunkSize > room)
    {
        IFF_error("The chunk does not fit in the group: the size of the group would become too large!\\n");
        return FALSE;
    }

    if(IFF_attachToGroup(group, chunk))
    {
        group->chunkSize = IFF_incrementChunkSize(group->chunkSize, chunk);
        return TRUE;
    }
    else
        return FALSE;'''))
M('6 add room left without padding', 'C18', ('group.c', ADDG, '''    IFF_Long room = 0x7fffffff - group->chunkSize - 8;

    if(chunk->chunkSize > room)
    {
        IFF_error("The chunk does not fit in the group: the size of the group would become too large!\\n");
        return FALSE;
    }

    if(!IFF_attachToGroup(group, chunk))
        return FALSE;

    group->chunkSize = IFF_incrementChunkSize(group->chunkSize, chunk);
    return TRUE;'''))
M('6 add test after attaching', 'C38', ('group.c', ADDG, '''    IFF_Long chunkSize;

    if(!IFF_attachToGroup(group, chunk))
        return FALSE;

    chunkSize = IFF_incrementChunkSize(group->chunkSize, chunk);

    /* The size of the group must remain a valid chunk size */
    if(chunkSize < group->chunkSize)
    {
        IFF_error("The chunk does not fit in the group: the size of the group would become too large!\\n");
        return FALSE;
    }

    group->chunkSize = chunkSize;
    return TRUE;'''))
M('6 add refuses half', 'C18', ('group.c', ADDG, ADDG.replace('chunkSize < group->chunkSize', 'chunkSize < group->chunkSize || chunkSize > 0x3fffffff')))
M('6 add refuses empty chunks', 'C19', ('group.c', ADDG, ADDG.replace('if(chunkSize < group->chunkSize)', 'if(chunkSize < group->chunkSize || chunk->chunkSize == 0)')))
M('6 add size of current list', 'C18', ('group.c', ADDG, ADDG.replace('    group->chunkSize = chunkSize;', '    group->chunkSize = IFF_incrementChunkSize(group->chunkSize, group->chunk[0]);')))

# ---- iffpp output
M('6 pp ferror only', 'C26', ('iffpp/pp.c', 'fflush(stdout) != 0 || ferror(stdout)', 'ferror(stdout)'))
M('6 pp flush only', 'C26', ('iffpp/pp.c', 'fflush(stdout) != 0 || ferror(stdout)', 'fflush(stdout) != 0'))
M('6 pp error before flush', 'C26', ('iffpp/pp.c', 'fflush(stdout) != 0 || ferror(stdout)', 'ferror(stdout) && fflush(stdout) != 0'))
M('6 pp status of main', 'C26', ('iffpp/main.c', '    return IFF_prettyPrint(filename, options);', '    IFF_prettyPrint(filename, options);\n    return 0;'))
R('6 pp flush in main', ('iffpp/pp.c', '''            if(fflush(stdout) != 0 || ferror(stdout))
            {
                fprintf(stderr, "Cannot write to the standard output!\\n");
                status = 1;
            }
            else
                status = 0;''', '''            status = 0;'''), ('iffpp/main.c', '    return IFF_prettyPrint(filename, options);', '''    {
        int status = IFF_prettyPrint(filename, options);

        if(fflush(stdout) != 0 || ferror(stdout))
        {
            fprintf(stderr, "Cannot write to the standard output!\\n");
            status = 1;
        }

        return status;
    }'''))
R('6 pp close stdout', ('iffpp/pp.c', '''fflush(stdout) != 0 || ferror(stdout)''', '''ferror(stdout) | fflush(stdout)'''))
