"""Word positions of the released version 7 file format: the specification C17 compares with."""
KEYS = {'zdssFileKeys': {'kdss': 0,
                  'kfileHeaderSize': 1,
                  'kversion': 2,
                  'knumberRecords': 3,
                  'knumberAliases': 4,
                  'kfileSize': 5,
                  'kdead': 6,
                  'knumberExpansions': 7,
                  'knumberCollections': 8,
                  'knumberRenames': 9,
                  'knumberDeletes': 10,
                  'knumberAliasDeletes': 11,
                  'kcreateDate': 12,
                  'klastWriteTime': 13,
                  'klockAddressWord': 14,
                  'kmaxHash': 15,
                  'khashsUsed': 16,
                  'kmaxPathsOneHash': 17,
                  'kmaxPathsHashCode': 18,
                  'kaddHashTableStart': 19,
                  'khashCollisions': 20,
                  'kbinsPerBlock': 21,
                  'kbinsRemainInBlock': 22,
                  'kbinSize': 23,
                  'kaddFirstBin': 24,
                  'kaddNextEmptyBin': 25,
                  'ktotalBins': 26,
                  'kbinsOverflow': 27,
                  'kfilePassword': 28,
                  'kfileError': 30,
                  'kfileErrorCode': 31,
                  'kcatSequenceNumber': 32,
                  'kcatSortStatus': 33,
                  'kcatSortNewWrites': 34,
                  'kcatSortDeletes': 35,
                  'kcatSortSize': 36,
                  'kcatSortNumber': 37,
                  'kcatSortAddress': 38,
                  'kreclaimMin': 39,
                  'kreclaimMaxAvailable': 40,
                  'kreclaimTotal': 41,
                  'kreclaimTableAddress': 42,
                  'kreclaimSegAvailableAdd': 43,
                  'kreclaimSegNumber': 44,
                  'kreclaimMaxSegment': 45,
                  'kreclaimSegmentsUsed': 46,
                  'kreclaimNumber': 47,
                  'kreclaimSize': 48,
                  'kreclaimedPaths': 49,
                  'kreclaimedSpace': 50,
                  'kmaxPath': 51,
                  'kmaxA': 52,
                  'kmaxB': 53,
                  'kmaxC': 54,
                  'kmaxD': 55,
                  'kmaxE': 56,
                  'kmaxF': 57,
                  'kmaxInternalHeader': 58,
                  'kmaxHeader2': 59,
                  'kmaxUserHeader': 60,
                  'kmaxValues1Size': 61,
                  'kmaxValues2Size': 62,
                  'kmaxValues3Size': 63,
                  'knumberInternalHeader': 64,
                  'knumberHeader2': 65,
                  'knumberDataArea3': 66,
                  'knumberUserHeader': 67,
                  'knumberDataArea1': 68,
                  'knumberDataArea2': 69,
                  'kmaxRecordSize': 70,
                  'kmaxRtsSize': 71,
                  'kmaxRtdSize': 72,
                  'kmaxItsSize': 73,
                  'kmaxItdSize': 74,
                  'kmaxPdSize': 75,
                  'kmaxPddSize': 76,
                  'kmaxOtherSize': 77,
                  'kmaxExpectedPathnames': 78,
                  'kerrorMemory': 79,
                  'kerrorAddress': 80,
                  'kerrorWrite': 81,
                  'kerrorRead': 82,
                  'kerrorTotal': 83,
                  'klocBoundLR': 84,
                  'klocBoundLL': 85,
                  'klocBoundUR': 86,
                  'klocBoundUL': 87,
                  'klocBoundElev': 88,
                  'kdetune': 89,
                  'klockArraySizes': 90,
                  'klockWriteArrayAddress': 91,
                  'klockReadArrayAddress': 92,
                  'kpidArrayAddress': 93,
                  'kendian': 94,
                  'kreserved1': 95,
                  'kreserved2': 96,
                  'kreserved3': 97,
                  'kreserved4': 98,
                  'kendFileHeader': 99},
 'zdssBinKeys': {'kbinHash': 0,
                 'kbinStatus': 1,
                 'kbinPathLen': 2,
                 'kbinInfoAdd': 3,
                 'kbinTypeAndCatSort': 4,
                 'kbinLastWrite': 5,
                 'kbinDates': 6,
                 'kbinPath': 7,
                 'kbinSize': 7},
 'zdssInfoKeys': {'kinfoFlag': 0,
                  'kinfoStatus': 1,
                  'kinfoPathnameLength': 2,
                  'kinfoHash': 3,
                  'kinfoTypeVersion': 4,
                  'kinfoExpansion': 5,
                  'kinfoLastWriteTime': 6,
                  'kinfoProgram': 7,
                  'kinfoFirstDate': 9,
                  'kinfoLastDate': 10,
                  'kinfoCreationTime': 11,
                  'kinfoReserved1': 12,
                  'kinfoInternalHeadAddress': 13,
                  'kinfoInternalHeadNumber': 14,
                  'kinfoHeader2Address': 15,
                  'kinfoHeader2Number': 16,
                  'kinfoUserHeadAddress': 17,
                  'kinfoUserHeadNumber': 18,
                  'kinfoValues1Address': 19,
                  'kinfoValues1Number': 20,
                  'kinfoValues2Address': 21,
                  'kinfoValues2Number': 22,
                  'kinfoValues3Address': 23,
                  'kinfoValues3Number': 24,
                  'kinfoAllocatedSize': 25,
                  'kinfoNumberData': 26,
                  'kinfoLogicalNumber': 27,
                  'kinfoAliasesBinAddress': 28,
                  'kinfoReserved': 29,
                  'kinfoPathname': 30}}
