"""Published error codes, severities and function names: the specification C05 compares with."""
ERROR = {'STATUS_OK': (0, ''),
 'INVALID_FILE_VERSION': (1, 'Incompatible DSS file versions\nThis library is only compatible with version 7 DSS files\nThis file is version %s'),
 'INCOMPATIBLE_VERSION': (2, 'Incompatible DSS version\nThis function is only compatible with version 7 DSS files\nThis file is version %d'),
 'INCOMPATIBLE_VERSION_6': (3, 'Incompatible DSS version\nThis function is only compatible with version 6 DSS files\nThis file is version %d'),
 'INVALID_FILE_NAME': (4, 'Invalid DSS file name\nFile '),
 'NO_EXCLUSIVE_ACCESS': (5, 'Unable to exclusively access file\nFile '),
 'UNABLE_TO_ACCESS_FILE': (6, 'Unable to access file\nFile '),
 'UNABLE_TO_WRITE_FILE': (7, 'Unable to obtain write access to file\nFile '),
 'UNABLE_TO_CREATE_FILE': (8, 'Unable to create file\nFile '),
 'NO_WRITE_PERMISSION': (9, 'No write permission for file\nFile '),
 'NO_PERMISSION': (10, 'No permission to access file\nFile '),
 'WRITE_ON_READ_ONLY': (11, 'Write attempt on file without write access (read-only mode).\n'),
 'INVALID_DSS_FILE': (12, 'Not a DSS file\nDSS Identifier ==>%s<==; Should be ==>ZDSS<=='),
 'INVALID_ADDRESS': (13, 'Attempted to access an invalid address: %lld'),
 'INVALID_NUMBER_TO_READ': (14, 'An invalid number of data has been requested to be read: %lld'),
 'INVALID_NUMBER_TO_WRITE': (15, 'An invalid number of data has been requested to be written: %lld'),
 'WRITE_ERROR': (16, 'An error occurred during a write attempt, status: %d'),
 'READ_ERROR': (17, 'An error occurred during a read attempt, status: %d'),
 'READ_BEYOND_EOF': (18, 'Attempt to read beyond end of file by %d bytes'),
 'INVALID_FILE_HEADER': (19,
                         'The DSS file main header is damaged. \n'
                         'End of perm flag does not match:  %lld is not %lld\n'
                         'Squeeze the file to attempt recovery.'),
 'TRUNCATED_FILE': (20, 'The DSS file is incomplete (truncated).\nBytes read: %d from address %lld\nSqueeze the file to attempt recovery.'),
 'INVALID_HEADER_PARAMETER': (21,
                              'The DSS file main header is damaged. \n'
                              'An invalid number was read from the file: %lld\n'
                              'Squeeze the file to attempt recovery.'),
 'DAMAGED_FILE': (22, 'The DSS file is damaged.  Status: %d, detected at address: %lld\nSqueeze the file to attempt recovery.'),
 'CLOSED_FILE': (23, 'The DSS file has been closed and must be reopened prior to use'),
 'EMPTY_FILE': (24, 'The DSS file has no records or data in it; it is an empty file'),
 'IFLTAB_CORRUPT': (25, 'The primary table in memory has become corrupt (probably due to a program memory error)'),
 'KEY_CORRUPT': (26,
                 'The primary table keys in memory no longer match,\n'
                 'indicating that the table has become corrupt (probably due to a program memory error)'),
 'KEY_VALUE': (27, 'The value of key %d is ==>%lld<==,  It should be ==>%lld<=='),
 'KEY3_LOCATION': (28, 'The location pointer for key 3 is outside bounds (> 500).  It is ==>%d<=='),
 'CANNOT_LOCK_FILE': (29, 'Unable to lock file'),
 'CANNOT_LOCK_EXCLUSIVE': (30, 'Unable to lock file for Exclusive access'),
 'CANNOT_LOCK_MULTI_USER': (31, 'Unable to lock file for multiple user access\nUnable to obtain a lock after %d attempts.'),
 'CANNOT_SQUEEZE': (32, 'Unable to squeeze file\n%s'),
 'INVALID_BIN_STATUS': (33, 'Invalid status read in pathname bin: %d; possible corruption in file (squeeze to resolve).'),
 'CANNOT_ALLOCATE_MEMORY': (34, 'Cannot allocate memory, size requested: %d'),
 'INVALID_PARAMETER': (35, 'Invalid or unrecognized parameter: %s (ignored)'),
 'INVALID_NUMBER': (36, 'Invalid or unrecognized number: %d, for %s (ignored)'),
 'INCOMPATIBLE_CALL': (37, 'An invalid or incompatible call or function access has been made.  (unspecified error)'),
 'NON_EMPTY_FILE': (38, 'Cannot set parameter for a non-empty file.  Parameter: %s, number of records in file: %d'),
 'BIN_SIZE_CONFLICT': (39, 'Bin space used is larger than bin size, error at address %lld\nSpace: %d, allocated: %d\n %s'),
 'DIFFERENT_RECORD_TYPE': (40, 'Cannot write to a record with a different record type.\nType being written: %d,   Type stored: %lld\n %s'),
 'WRONG_RECORD_TYPE': (41, 'Wrong record type for this function.\nType expected: %d,   Type stored: %lld\n %s'),
 'NO_UNDELETE_WITH_RECLAIM': (42, 'Unable to undelete in a DSS file that uses space reclamation.'),
 'ARRAY_SPACE_EXHAUSTED': (43, 'Array space is exhausted.  Length allocated: %d, current position: %d,  %s\n'),
 'BOTH_NOTE_KINDS_USED': (44, 'Cannot store both character notes and integer notes in same data set.'),
 'NO_DATA_GIVEN': (45, 'No data given to store.'),
 'NO_DATA_READ': (46, 'No data read.  Pathname: %s'),
 'NO_TIME_WINDOW': (47, 'No time window given, or invalid date or time specified.'),
 'INVALID_DATE_TIME': (48, 'Invalid date or time given.'),
 'INVALID_INTERVAL': (49, 'Invalid time interval.\nInterval type: %d'),
 'TIMES_NOT_ASCENDING': (50, 'Times are not ascending.  Irregular-interval data must have ordered ascending times.'),
 'DIFFERENT_PROFILE_NUMBER': (51, 'Cannot store a different number of profile depths.\nNumber ask to store: %d,  Number stored:%d'),
 'RECORD_DOES_NOT_EXIST': (52, 'Record does not exist\npathname: '),
 'RECORD_ALREADY_EXISTS': (53, 'Record already exists\npathname: '),
 'INVALID_PATHNAME': (54, 'Invalid pathname\npathname: '),
 'INVALID_RECORD_HEADER': (55, 'Invalid internal header for this data type; data type: %d.'),
 'ARRAY_TOO_SMALL': (56, 'Space needed is more than that allocated.  Needed: %d,  Allocated: %d'),
 'NOT_OPENED': (57, 'HEC-DSS file has not been opened or ifltab is corrupted.\nThis function requires the file to be opened.'),
 'FILE_DOES_NOT_EXIST': (58, 'HEC-DSS file does not exist.  It must exist for this function.\nFile name: %s'),
 'FILE_EXISTS': (59, 'HEC-DSS file already exists.  It should not exist for this function.\nFile name: %s'),
 'NULL_FILENAME': (60, 'NULL File name.  No file name was provided or a null pointer was given instead of a vaild file name.'),
 'NULL_PATHNAME': (61, 'NULL pathame.  No pathame was provided or a null pointer was given instead of a vaild pathame.'),
 'NULL_ARGUMENT': (62, 'NULL argument passed.  A null pointer was given instead of a argument.'),
 'NULL_ARRAY': (63, 'NULL pointer / array.  A null pointer was given instead of an expected array.'),
 'VERTICAL_DATUM_ERROR': (64, 'Cannot perform vertical datum conversion.'),
 'INVALID_F_PART_TAGS': (65, 'Cannot normalize F part tags. Error is %s'),
 'UNDEFINED_ERROR': (66, 'Undefined error')}
SEVERITY = {'INFORMATION': 1,
 'WARNING': 2,
 'INVALID_ARGUMENT': 3,
 'WARNING_NO_WRITE_ACCESS': 4,
 'WARNING_NO_FILE_ACCESS': 5,
 'WRITE_ERROR': 6,
 'READ_ERROR': 7,
 'CORRUPT_FILE': 8,
 'MEMORY_ERROR': 9}
FUNCTION = {1: 'zopen',
 2: 'zclose',
 3: 'zset',
 4: 'zget',
 5: 'zput',
 6: 'zgetBuff',
 7: 'zputBuff',
 8: 'zmemoryGet',
 9: 'zmemoryFree',
 10: 'zreadDisk',
 11: 'zwriteDisk',
 12: 'zpermRead',
 13: 'zpermCreate',
 14: 'zpermWrite',
 15: 'zwriteEOF',
 16: 'zinit',
 17: 'zinitIfltab',
 18: 'zlocking',
 19: 'znewFileSize',
 20: 'zgetFileSpace',
 21: 'zcheckKeys',
 22: 'zflushToDisk',
 23: 'zhash',
 24: 'zcheck',
 25: 'zreadInfo',
 26: 'zcheckMultiUser',
 27: 'zreadInternal',
 28: 'zwriteInternal',
 29: 'zwriteNew',
 30: 'zwriteExisting',
 31: 'zbinNew',
 32: 'zbinUpdate',
 33: 'zsetFile',
 34: 'zquery',
 35: 'zdelete',
 36: 'undelete',
 37: 'zcopyFile',
 38: 'ztsStoreReg',
 39: 'ztsRegStoreBlock',
 40: 'ztsStore',
 41: 'ztsRetrieve',
 42: 'ztsRetrieveReg',
 43: 'ztsRegReadBlock',
 44: 'ztsWriteBlock',
 45: 'ztsTrim',
 46: 'ztsStoreIrreg',
 47: 'ztsIrregReadBlock',
 48: 'ztsIrregMergeBlocks',
 49: 'ztsRetrieveIrreg',
 50: 'ztsIrregStoreBlock',
 51: 'ztsProcessTimes',
 52: 'zcatalog',
 53: 'zpdStore',
 54: 'zpdRetrieve',
 55: 'zinquire',
 56: 'zsqueeze',
 57: 'ztextStore',
 58: 'ztextRetrieve',
 59: 'zcopyRecord',
 60: 'zrename',
 61: 'zduplicateRecord',
 62: 'zarrayRetrieve',
 63: 'zarrayStore',
 64: 'zbinaryStore',
 65: 'zbinaryRetrieve',
 66: 'zcheckHashTable',
 67: 'zcheckInfo',
 68: 'zcheckLinks',
 69: 'zcheckPathnameBins',
 70: 'zcheckPathnames',
 71: 'zspatialTinStore',
 72: 'zspatialTinRetrieve',
 73: 'zaliasAdd',
 74: 'zaliasRemove',
 75: 'zaliasUtil',
 76: 'zlocationStore',
 77: 'zlocationRetrieve',
 78: 'zread',
 79: 'zwrite',
 80: 'internal utility',
 81: 'ztsAggregate',
 82: 'ztsDisaggregate',
 83: 'zspatialGridStore',
 84: 'zspatialGridRetrieve',
 85: 'other',
 86: 'javaNativeInterface'}
