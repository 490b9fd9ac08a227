"""Methods of the C++ classes declared const (queries), with the kinds of their arguments; see args() in props/c37.py.
Generated once from the headers of the unchanged tree (outputs dropped); a method absent from the tree is ignored."""
T = {
'DataArrayDouble': {'accumulate': '- n', 'accumulatePerChunck': 'i', 'aggregate': '-', 'applyFunc': 'nsb sb', 'applyFuncCompo': 'nsb', 'areIncludedInMe': 'De', 'areInfoEquals': 'O', 'areInfoEqualsIfNotWhy': 'O', 'asArcOfCircle': 'e', 'back': '-', 'buildEuclidianDistanceDenseMatrix': '-', 'buildEuclidianDistanceDenseMatrixWith': 'D', 'buildNewEmptyInstance': '-', 'candidatesClosestTo': 'D', 'changeNbOfComponents': 'nv', 'checkAllocated': '-', 'checkMonotonic': 'b be', 'checkNbOfComps': 'ns', 'checkNbOfElems': 'ns', 'checkNbOfTuples': 'ns', 'checkNbOfTuplesAndComp': 'Os nns', 'checkNoNullValues': '-', 'computeAbs': '-', 'computeBBoxPerTuple': 'e', 'computeNbOfInteractionsWith': 'De', 'computeTupleIdsNearTuples': 'De', 'convertToFloatArr': '-', 'convertToInt64Arr': '-', 'convertToIntArr': '-', 'copySorted': 'b', 'count': 'ee v', 'cppRepr': '- s', 'cumSum': '-', 'debugHeapMemorySize': '-', 'declareAsNew': '-', 'decrRef': '-', 'deepCopy': '- OO', 'determinant': '-', 'deviator': '-', 'distanceToTuple': 'p', 'doubleValue': '-', 'doublyContractedProduct': '-', 'duplicateEachTupleNTimes': 'n', 'duplicateNTimes': 'n', 'eigenValues': '-', 'eigenVectors': '-', 'empty': '-', 'explodeComponents': '-', 'findClosestTupleId': 'D', 'findCommonTuples': 'en n', 'findIdsGreaterOrEqualTo': 'v', 'findIdsGreaterThan': 'v', 'findIdsInRange': 'cc ee vv', 'findIdsLowerOrEqualTo': 'v', 'findIdsLowerThan': 'v', 'findIdsNotInRange': 'ee vv', 'findIdsStrictlyNegative': '-', 'fromCartToCyl': '-', 'fromCartToCylGiven': 'Dpp', 'fromCartToPolar': '-', 'fromCartToSpher': '-', 'fromCylToCart': '-', 'fromNoInterlace': '- n', 'fromPolarToCart': '-', 'fromSpherToCart': '-', 'front': '-', 'getAllTheProgeny': '-', 'getAverageValue': '-', 'getClassName': '-', 'getDifferentValues': '- en', 'getDirectChildren': '-', 'getHeapMemorySize': '-', 'getHeapMemorySizeStr': '-', 'getHeapMemorySizeWithoutChildren': '-', 'getIJ': 'nn', 'getIJSafe': 'nn', 'getInfoOnComponent': 'n', 'getInfoOnComponents': '-', 'getMaxAbsValue': '-', 'getMaxAbsValueInArray': '-', 'getMaxValue': '-', 'getMaxValue2': '-', 'getMaxValueInArray': '-', 'getMinMaxPerComponent': '-', 'getMinValue': '-', 'getMinValue2': '-', 'getMinValueInArray': '-', 'getName': '-', 'getNbOfElemAllocated': '-', 'getNbOfElems': '-', 'getNumberOfComponents': '-', 'getNumberOfTuples': '- m', 'getRCValue': '-', 'getSlice': '-', 'getTimeOfThis': '-', 'getTuple': 'n', 'getUnitOnComponent': 'n', 'getUnitsOnComponent': '-', 'getValues': '-', 'getVarOnComponent': 'n', 'getVarsOnComponent': '-', 'incrRef': '-', 'inverse': '-', 'isAllocated': '-', 'isEqual': 'O Oe Oev me', 'isEqualIfNotWhy': 'O Oe Oev me', 'isEqualWithoutConsideringStr': 'O Oe Oev me', 'isMonotonic': 'b be', 'isUniform': 'c v vv', 'magnitude': '-', 'maxPerTuple': '-', 'maxPerTupleWithCompoId': '-', 'minPerTuple': '-', 'minimalDistanceTo': 'D', 'negate': '-', 'norm2': '-', 'normMax': '- n', 'normMaxPerComponent': '-', 'normMin': '-', 'pack': '-', 'performCopyOrIncrRef': 'b', 'renumber': 'i', 'renumberAndReduce': 'in', 'renumberR': 'i', 'repr': '- n', 'reprNotTooLong': '- n', 'reprZip': '- n', 'selectByTupleId': 'i', 'selectByTupleIdSafe': 'i', 'selectByTupleIdSafeSlice': 'nnn', 'selectByTupleRanges': 'P', 'subArray': 'nn', 'sumPerTuple': '-', 'symmetry3DPlane': 'pp', 'toNoInterlace': '- n', 'trace': '-', 'updateTime': '-', 'writeForDbg': 's'},
'DataArrayInt64': {'accumulate': '- n', 'accumulatePerChunck': 'i', 'aggregate': '-', 'areInfoEquals': 'O', 'areInfoEqualsIfNotWhy': 'O', 'back': '-', 'begin': '-', 'buildComplement': 'n', 'buildExplicitArrByRanges': 'O', 'buildExplicitArrOfSliceOnScaledArr': 'vvv', 'buildIntersection': 'O', 'buildNewEmptyInstance': '-', 'buildPermArrPerLevel': '-', 'buildPermutationArr': 'O', 'buildSubstraction': 'O', 'buildSubstractionOptimized': 'O', 'buildUnion': 'O', 'buildUnique': '-', 'buildUniqueNotSorted': '-', 'changeNbOfComponents': 'nv', 'changeSurjectiveFormat': 'v', 'checkAllIdsInRange': 'vv', 'checkAllocated': '-', 'checkAndPreparePermutation': '-', 'checkMonotonic': 'b be', 'checkNbOfComps': 'ns', 'checkNbOfElems': 'ns', 'checkNbOfTuples': 'ns', 'checkNbOfTuplesAndComp': 'Os nns', 'checkStrictlyMonotonic': 'b', 'checkUniformAndGuess': '-', 'computeAbs': '-', 'convertToDblArr': '-', 'convertToFloatArr': '-', 'convertToInt32Arr': '-', 'copySorted': 'b', 'count': 'ee v', 'cppRepr': '- s', 'debugHeapMemorySize': '-', 'declareAsNew': '-', 'decrRef': '-', 'deepCopy': '- OO', 'deltaShiftIndex': '-', 'duplicateEachTupleNTimes': 'n', 'duplicateNTimes': 'n', 'empty': '-', 'end': '-', 'explodeComponents': '-', 'findCommonTuples': 'en n', 'findIdFirstEqual': 'V c v', 'findIdFirstEqualTuple': 'V', 'findIdForEach': 'VV', 'findIdInRangeForEachTuple': 'O', 'findIdSequence': 'V', 'findIdsEqual': 'c v', 'findIdsEqualList': 'VV', 'findIdsEqualTuple': 'VV', 'findIdsGreaterOrEqualTo': 'v', 'findIdsGreaterThan': 'v', 'findIdsInRange': 'cc ee vv', 'findIdsLowerOrEqualTo': 'v', 'findIdsLowerThan': 'v', 'findIdsNotEqual': 'c v', 'findIdsNotEqualList': 'VV', 'findIdsNotInRange': 'ee vv', 'findIdsRangesInListOfIds': 'O', 'findIdsStrictlyNegative': '-', 'findRangeIdForEachTuple': 'O', 'fromLinkedListOfPairToList': '-', 'fromListOfPairsToIndexArray': '-', 'fromNoInterlace': '- n', 'front': '-', 'getAllTheProgeny': '-', 'getClassName': '-', 'getConstPointer': '-', 'getDifferentValues': '- en', 'getDirectChildren': '-', 'getHashCode': '-', 'getHashCode2': '-', 'getHeapMemorySize': '-', 'getHeapMemorySizeStr': '-', 'getHeapMemorySizeWithoutChildren': '-', 'getIJ': 'nn', 'getIJSafe': 'nn', 'getInfoOnComponent': 'n', 'getInfoOnComponents': '-', 'getMaxAbsValue': '-', 'getMaxAbsValueInArray': '-', 'getMaxValue': '-', 'getMaxValueInArray': '-', 'getMinMaxValues': '-', 'getMinValue': '-', 'getMinValueInArray': '-', 'getName': '-', 'getNbOfElemAllocated': '-', 'getNbOfElems': '-', 'getNumberOfComponents': '-', 'getNumberOfTuples': '- m', 'getRCValue': '-', 'getSlice': '-', 'getTimeOfThis': '-', 'getTuple': 'n', 'getUnitOnComponent': 'n', 'getUnitsOnComponent': '-', 'getValues': '-', 'getVarOnComponent': 'n', 'getVarsOnComponent': '-', 'giveN2OOptimized': '-', 'hasUniqueValues': '-', 'incrRef': '-', 'indexOfSameConsecutiveValueGroups': '-', 'indicesOfSubPart': 'O', 'intValue': '-', 'invertArrayN2O2O2N': 'n', 'invertArrayN2O2O2NOptimized': '-', 'invertArrayO2N2N2O': 'n', 'invertArrayO2N2N2OBis': 'n', 'isAllocated': '-', 'isEqual': 'O Oe Oev me', 'isEqualIfNotWhy': 'O Oe Oev me', 'isEqualWithoutConsideringStr': 'O Oe Oev me', 'isIota': 'n', 'isMonotonic': 'b be', 'isRange': '-', 'isStrictlyMonotonic': 'b', 'isUniform': 'c v vv', 'locateComponentId': 'OI', 'negate': '-', 'occurenceRankInThis': '-', 'pack': '-', 'partitionByDifferentValues': '-', 'performCopyOrIncrRef': 'b', 'presenceOfTuple': 'V', 'presenceOfValue': 'V c v', 'renumber': 'i', 'renumberAndReduce': 'in', 'renumberR': 'i', 'repr': '- n', 'reprNotTooLong': '- n', 'reprZip': '- n', 'selectByTupleId': 'i', 'selectByTupleIdSafe': 'i', 'selectByTupleIdSafeSlice': 'nnn', 'selectByTupleRanges': 'P', 'splitByValueRange': 'VV', 'splitInBalancedSlices': 'n', 'splitPairsIntoChains': '-', 'subArray': 'nn', 'sumPerTuple': '-', 'toNoInterlace': '- n', 'transformWithIndArrR': 'VV', 'updateTime': '-', 'writeForDbg': 's'},
'DataArrayInt32': {'accumulate': '- n', 'accumulatePerChunck': 'i', 'aggregate': '-', 'areInfoEquals': 'O', 'areInfoEqualsIfNotWhy': 'O', 'back': '-', 'begin': '-', 'buildComplement': 'n', 'buildExplicitArrByRanges': 'O', 'buildExplicitArrOfSliceOnScaledArr': 'vvv', 'buildIntersection': 'O', 'buildNewEmptyInstance': '-', 'buildPermArrPerLevel': '-', 'buildPermutationArr': 'O', 'buildSubstraction': 'O', 'buildSubstractionOptimized': 'O', 'buildUnion': 'O', 'buildUnique': '-', 'buildUniqueNotSorted': '-', 'changeNbOfComponents': 'nv', 'changeSurjectiveFormat': 'v', 'checkAllIdsInRange': 'vv', 'checkAllocated': '-', 'checkAndPreparePermutation': '-', 'checkMonotonic': 'b be', 'checkNbOfComps': 'ns', 'checkNbOfElems': 'ns', 'checkNbOfTuples': 'ns', 'checkNbOfTuplesAndComp': 'Os nns', 'checkStrictlyMonotonic': 'b', 'checkUniformAndGuess': '-', 'computeAbs': '-', 'convertToDblArr': '-', 'convertToFloatArr': '-', 'convertToInt64Arr': '-', 'copySorted': 'b', 'count': 'ee v', 'cppRepr': '- s', 'debugHeapMemorySize': '-', 'declareAsNew': '-', 'decrRef': '-', 'deepCopy': '- OO', 'deltaShiftIndex': '-', 'duplicateEachTupleNTimes': 'n', 'duplicateNTimes': 'n', 'empty': '-', 'end': '-', 'explodeComponents': '-', 'findCommonTuples': 'en n', 'findIdFirstEqual': 'V c v', 'findIdFirstEqualTuple': 'V', 'findIdForEach': 'VV', 'findIdInRangeForEachTuple': 'O', 'findIdSequence': 'V', 'findIdsEqual': 'c v', 'findIdsEqualList': 'VV', 'findIdsEqualTuple': 'VV', 'findIdsGreaterOrEqualTo': 'v', 'findIdsGreaterThan': 'v', 'findIdsInRange': 'cc ee vv', 'findIdsLowerOrEqualTo': 'v', 'findIdsLowerThan': 'v', 'findIdsNotEqual': 'c v', 'findIdsNotEqualList': 'VV', 'findIdsNotInRange': 'ee vv', 'findIdsRangesInListOfIds': 'O', 'findIdsStrictlyNegative': '-', 'findRangeIdForEachTuple': 'O', 'fromLinkedListOfPairToList': '-', 'fromListOfPairsToIndexArray': '-', 'fromNoInterlace': '- n', 'front': '-', 'getAllTheProgeny': '-', 'getClassName': '-', 'getConstPointer': '-', 'getDifferentValues': '- en', 'getDirectChildren': '-', 'getHashCode': '-', 'getHashCode2': '-', 'getHeapMemorySize': '-', 'getHeapMemorySizeStr': '-', 'getHeapMemorySizeWithoutChildren': '-', 'getIJ': 'nn', 'getIJSafe': 'nn', 'getInfoOnComponent': 'n', 'getInfoOnComponents': '-', 'getMaxAbsValue': '-', 'getMaxAbsValueInArray': '-', 'getMaxValue': '-', 'getMaxValueInArray': '-', 'getMinMaxValues': '-', 'getMinValue': '-', 'getMinValueInArray': '-', 'getName': '-', 'getNbOfElemAllocated': '-', 'getNbOfElems': '-', 'getNumberOfComponents': '-', 'getNumberOfTuples': '- m', 'getRCValue': '-', 'getSlice': '-', 'getTimeOfThis': '-', 'getTuple': 'n', 'getUnitOnComponent': 'n', 'getUnitsOnComponent': '-', 'getValues': '-', 'getVarOnComponent': 'n', 'getVarsOnComponent': '-', 'hasUniqueValues': '-', 'incrRef': '-', 'indexOfSameConsecutiveValueGroups': '-', 'indicesOfSubPart': 'O', 'intValue': '-', 'invertArrayN2O2O2N': 'n', 'invertArrayO2N2N2O': 'n', 'invertArrayO2N2N2OBis': 'n', 'isAllocated': '-', 'isEqual': 'O Oe Oev me', 'isEqualIfNotWhy': 'O Oe Oev me', 'isEqualWithoutConsideringStr': 'O Oe Oev me', 'isIota': 'n', 'isMonotonic': 'b be', 'isRange': '-', 'isStrictlyMonotonic': 'b', 'isUniform': 'c v vv', 'locateComponentId': 'OI', 'negate': '-', 'occurenceRankInThis': '-', 'pack': '-', 'partitionByDifferentValues': '-', 'performCopyOrIncrRef': 'b', 'presenceOfTuple': 'V', 'presenceOfValue': 'V c v', 'renumber': 'i', 'renumberAndReduce': 'in', 'renumberR': 'i', 'repr': '- n', 'reprNotTooLong': '- n', 'reprZip': '- n', 'selectByTupleId': 'i', 'selectByTupleIdSafe': 'i', 'selectByTupleIdSafeSlice': 'nnn', 'selectByTupleRanges': 'P', 'splitByValueRange': 'VV', 'splitInBalancedSlices': 'n', 'splitPairsIntoChains': '-', 'subArray': 'nn', 'sumPerTuple': '-', 'toNoInterlace': '- n', 'transformWithIndArrR': 'VV', 'updateTime': '-', 'writeForDbg': 's'},
'DataArrayFloat': {'areInfoEquals': 'O', 'areInfoEqualsIfNotWhy': 'O', 'buildNewEmptyInstance': '-', 'checkAllocated': '-', 'checkNbOfComps': 'ns', 'checkNbOfElems': 'ns', 'checkNbOfTuples': 'ns', 'checkNbOfTuplesAndComp': 'Os nns', 'convertToDblArr': '-', 'copySorted': 'b', 'cppRepr': '- s', 'debugHeapMemorySize': '-', 'declareAsNew': '-', 'decrRef': '-', 'deepCopy': '- OO', 'getAllTheProgeny': '-', 'getClassName': '-', 'getDirectChildren': '-', 'getHeapMemorySize': '-', 'getHeapMemorySizeStr': '-', 'getHeapMemorySizeWithoutChildren': '-', 'getInfoOnComponent': 'n', 'getInfoOnComponents': '-', 'getName': '-', 'getNbOfElemAllocated': '-', 'getNbOfElems': '-', 'getNumberOfComponents': '-', 'getNumberOfTuples': '- m', 'getRCValue': '-', 'getSlice': '-', 'getTimeOfThis': '-', 'getUnitOnComponent': 'n', 'getUnitsOnComponent': '-', 'getValues': '-', 'getVarOnComponent': 'n', 'getVarsOnComponent': '-', 'incrRef': '-', 'isAllocated': '-', 'isEqual': 'O Oe Oev me', 'isEqualIfNotWhy': 'O Oe Oev me', 'isEqualWithoutConsideringStr': 'O Oe Oev me', 'isUniform': 'c v vv', 'selectByTupleId': 'i', 'selectByTupleIdSafe': 'i', 'selectByTupleIdSafeSlice': 'nnn', 'selectByTupleRanges': 'P', 'updateTime': '-', 'writeForDbg': 's'},
'DataArrayAsciiChar': {'areInfoEquals': 'O', 'areInfoEqualsIfNotWhy': 'O', 'asciiCharValue': '-', 'back': '-', 'buildEmptySpecializedDAChar': '-', 'buildNewEmptyInstance': '-', 'changeNbOfComponents': 'nv', 'checkAllocated': '-', 'checkNbOfComps': 'ns', 'checkNbOfElems': 'ns', 'checkNbOfTuples': 'ns', 'checkNbOfTuplesAndComp': 'Os nns', 'convertToIntArr': '-', 'copySorted': 'b', 'cppRepr': '- s', 'debugHeapMemorySize': '-', 'declareAsNew': '-', 'decrRef': '-', 'deepCopy': '- OO', 'empty': '-', 'findIdFirstEqual': 'V c v', 'findIdFirstEqualTuple': 'V', 'findIdSequence': 'V', 'findIdsEqual': 'c v', 'findIdsInRange': 'cc ee vv', 'findIdsNotEqual': 'c v', 'front': '-', 'getAllTheProgeny': '-', 'getClassName': '-', 'getDirectChildren': '-', 'getHashCode': '-', 'getHeapMemorySize': '-', 'getHeapMemorySizeStr': '-', 'getHeapMemorySizeWithoutChildren': '-', 'getIJ': 'nn', 'getIJSafe': 'nn', 'getInfoOnComponent': 'n', 'getInfoOnComponents': '-', 'getMaxValue': '-', 'getMaxValueInArray': '-', 'getMinValue': '-', 'getMinValueInArray': '-', 'getName': '-', 'getNbOfElemAllocated': '-', 'getNbOfElems': '-', 'getNumberOfComponents': '-', 'getNumberOfTuples': '- m', 'getRCValue': '-', 'getSlice': '-', 'getTimeOfThis': '-', 'getTuple': 'n', 'getUnitOnComponent': 'n', 'getUnitsOnComponent': '-', 'getVarOnComponent': 'n', 'getVarsOnComponent': '-', 'incrRef': '-', 'isAllocated': '-', 'isEqual': 'O Oe Oev me', 'isEqualIfNotWhy': 'O Oe Oev me', 'isEqualWithoutConsideringStr': 'O Oe Oev me', 'isUniform': 'c v vv', 'pack': '-', 'performCopyOrIncrRef': 'b', 'presenceOfTuple': 'V', 'presenceOfValue': 'V c v', 'renumber': 'i', 'renumberAndReduce': 'in', 'renumberR': 'i', 'repr': '- n', 'reprZip': '- n', 'selectByTupleId': 'i', 'selectByTupleIdSafe': 'i', 'selectByTupleIdSafeSlice': 'nnn', 'selectByTupleRanges': 'P', 'subArray': 'nn', 'updateTime': '-'},
'DataArrayByte': {'areInfoEquals': 'O', 'areInfoEqualsIfNotWhy': 'O', 'back': '-', 'buildEmptySpecializedDAChar': '-', 'buildNewEmptyInstance': '-', 'byteValue': '-', 'changeNbOfComponents': 'nv', 'checkAllocated': '-', 'checkNbOfComps': 'ns', 'checkNbOfElems': 'ns', 'checkNbOfTuples': 'ns', 'checkNbOfTuplesAndComp': 'Os nns', 'convertToIntArr': '-', 'copySorted': 'b', 'cppRepr': '- s', 'debugHeapMemorySize': '-', 'declareAsNew': '-', 'decrRef': '-', 'deepCopy': '- OO', 'empty': '-', 'findIdFirstEqual': 'V c v', 'findIdFirstEqualTuple': 'V', 'findIdSequence': 'V', 'findIdsEqual': 'c v', 'findIdsInRange': 'cc ee vv', 'findIdsNotEqual': 'c v', 'front': '-', 'getAllTheProgeny': '-', 'getClassName': '-', 'getDirectChildren': '-', 'getHashCode': '-', 'getHeapMemorySize': '-', 'getHeapMemorySizeStr': '-', 'getHeapMemorySizeWithoutChildren': '-', 'getIJ': 'nn', 'getIJSafe': 'nn', 'getInfoOnComponent': 'n', 'getInfoOnComponents': '-', 'getMaxValue': '-', 'getMaxValueInArray': '-', 'getMinValue': '-', 'getMinValueInArray': '-', 'getName': '-', 'getNbOfElemAllocated': '-', 'getNbOfElems': '-', 'getNumberOfComponents': '-', 'getNumberOfTuples': '- m', 'getRCValue': '-', 'getSlice': '-', 'getTimeOfThis': '-', 'getTuple': 'n', 'getUnitOnComponent': 'n', 'getUnitsOnComponent': '-', 'getVarOnComponent': 'n', 'getVarsOnComponent': '-', 'incrRef': '-', 'isAllocated': '-', 'isEqual': 'O Oe Oev me', 'isEqualIfNotWhy': 'O Oe Oev me', 'isEqualWithoutConsideringStr': 'O Oe Oev me', 'isUniform': 'c v vv', 'pack': '-', 'performCopyOrIncrRef': 'b', 'presenceOfTuple': 'V', 'presenceOfValue': 'V c v', 'renumber': 'i', 'renumberAndReduce': 'in', 'renumberR': 'i', 'repr': '- n', 'reprZip': '- n', 'selectByTupleId': 'i', 'selectByTupleIdSafe': 'i', 'selectByTupleIdSafeSlice': 'nnn', 'selectByTupleRanges': 'P', 'subArray': 'nn', 'updateTime': '-'},
'MEDCouplingUMesh': {'advancedRepr': '-', 'are2DCellsNotCorrectlyOriented': 'pb', 'areAllNodesFetched': '-', 'areCellsIncludedIn': 'mn', 'areCellsIncludedInPolicy7': 'm', 'areCompatibleForMerge': 'O m', 'areOnlySimplexCells': '-', 'arePolyhedronsNotCorrectlyOriented': '-', 'buildBoundaryMesh': 'b', 'buildDescendingConnectivity': '-', 'buildDescendingConnectivity2': '-', 'buildDescendingConnectivityCrude': '-', 'buildDirectionVectorField': '-', 'buildFacePartOfMySelfNode': 'ib', 'buildNewNumberingFromCommonNodesFormat': 'II', 'buildOrthogonalField': '-', 'buildPart': 'i', 'buildPartAndReduceNodes': 'i', 'buildPartOfMySelf': 'ib', 'buildPartOfMySelfKeepCoords': 'i', 'buildPartOfMySelfKeepCoordsSlice': 'nnn', 'buildPartOfMySelfNode': 'ib', 'buildPartOfMySelfSlice': 'nnnb', 'buildPartOrthogonalField': 'i', 'buildPartRange': 'nnn', 'buildPartRangeAndReduceNodes': 'nnn', 'buildSetInstanceFromThis': 'n', 'buildSlice3D': 'ppe', 'buildSlice3DSurf': 'ppe', 'buildSpreadZonesWithPoly': '-', 'buildUnionOf2DMesh': '-', 'buildUnionOf3DMesh': '-', 'buildUnstructured': '-', 'checkButterflyCells': 'e', 'checkConsecutiveCellTypes': '-', 'checkConsecutiveCellTypesForMEDFileFrmt': '-', 'checkConsistency': 'e', 'checkConsistencyLight': '-', 'checkDeepEquivalOnSameNodesWith': 'mne', 'checkDeepEquivalWith': 'mne', 'checkFastEquivalWith': 'me', 'checkFullyDefined': '-', 'checkGeoEquivalWith': 'mne', 'checkGeomConsistency': 'e', 'clipSingle3DCellByPlane': 'ppe', 'clone': '- b', 'computeCellCenterOfMass': '-', 'computeCellCenterOfMassWithPrecision': 'e', 'computeCellNeighborhoodFromNodesOne': 'II', 'computeDiameterField': '-', 'computeEffectiveNbOfNodesPerCell': '-', 'computeEnlargedNeighborsOfNodes': '-', 'computeFetchedNodeIds': '-', 'computeIsoBarycenterOfNodesPerCell': '-', 'computeMeshCenterOfMass': '-', 'computeNbOfFacesPerCell': '-', 'computeNbOfNodesPerCell': '-', 'computeNeighborsOfCells': '-', 'computeNeighborsOfNodes': '-', 'computePlaneEquationOf3DFaces': '-', 'computeSkin': '-', 'convertCellArrayPerGeoType': 'I', 'convertIntoSingleGeoTypeMesh': '-', 'convertNodalConnectivityToDynamicGeoTypeMesh': '-', 'convertNodalConnectivityToStaticGeoTypeMesh': '-', 'convertQuadraticCellsToLinear': '-', 'cppRepr': '- s', 'debugHeapMemorySize': '-', 'declareAsNew': '-', 'decrRef': '-', 'deepCopy': '- OO', 'deepCopyConnectivityOnly': '-', 'distanceToPoint': 'p', 'distanceToPoints': 'D', 'emulateMEDMEMBDC': 'm', 'explode3DMeshTo1D': '-', 'explode3DMeshTo1DCrude': '-', 'explodeIntoEdges': '-', 'explodeMeshIntoMicroEdges': '-', 'explodeMeshTo': 'n', 'extrudeConnectivity': 'n', 'fillCellIdsToKeepFromNodeIds': 'ib', 'fillFromAnalytic': 'fns', 'fillFromAnalyticCompo': 'fns', 'findBoundaryNodes': '-', 'findCellIdsLyingOn': 'm', 'findCellIdsOnBoundary': '-', 'findCellsToRenumber': 'mi', 'findCommonCells': 'nn', 'findCommonNodes': 'en', 'findNodesOnLine': 'ppe', 'findNodesOnPlane': 'ppe', 'findNodesToDuplicate': 'm', 'generateGraph': '-', 'getAllGeoTypes': '-', 'getAllGeoTypesSorted': '-', 'getAllTheProgeny': '-', 'getAspectRatioField': '-', 'getBoundingBox': '-', 'getBoundingBoxForBBTree': 'e', 'getBoundingBoxForBBTree1DQuadratic': 'e', 'getBoundingBoxForBBTree2DQuadratic': 'e', 'getBoundingBoxForBBTreeFast': '-', 'getCaracteristicDimension': '-', 'getCellContainingPoint': 'pe', 'getCellIdsCrossingPlane': 'ppe', 'getCellIdsFullyIncludedInNodeIds': 'i', 'getCellIdsLyingOnNodes': 'ib', 'getCellsContainingPoint': 'pe', 'getCellsContainingPoints': 'pne', 'getCellsContainingPointsLinearPartOnlyOnNonDynType': 'pne', 'getCellsInBoundingBox': 'pe', 'getClassName': '-', 'getCoordinatesAndOwner': '-', 'getCoordinatesOfNode': 'n', 'getCoords': '-', 'getDescription': '-', 'getDirectAccessOfCoordsArrIfInStructure': '-', 'getDirectChildren': '-', 'getDistributionOfTypes': '-', 'getEdgeRatioField': '-', 'getFastAveragePlaneOfThis': '-', 'getHeapMemorySize': '-', 'getHeapMemorySizeStr': '-', 'getHeapMemorySizeWithoutChildren': '-', 'getMeasureField': 'b mb', 'getMeasureFieldOnNode': 'b', 'getMeshDimension': '-', 'getName': '-', 'getNodalConnectivity': '-', 'getNodalConnectivityArrayLen': '-', 'getNodalConnectivityIndex': '-', 'getNodeIdsInUse': '-', 'getNodeIdsNearPoint': 'pe', 'getNodeIdsNearPoints': 'pne', 'getNodeIdsOfCell': 'n', 'getNumberOfCells': '-', 'getNumberOfCellsWithType': 't', 'getNumberOfNodes': '-', 'getNumberOfNodesInCell': 'n', 'getPartBarycenterAndOwner': 'i', 'getPartMeasureField': 'bi', 'getQuadraticStatus': '-', 'getRCValue': '-', 'getRenumArrForMEDFileFrmt': '-', 'getReverseNodalConnectivity': '-', 'getSkewField': '-', 'getSpaceDimension': '-', 'getTime': '-', 'getTimeOfThis': '-', 'getTimeUnit': '-', 'getTinySerializationInformation': '-', 'getType': '-', 'getTypeOfCell': 'n', 'getTypesOfPart': 'i', 'getVTKFileExtension': '-', 'getVTKFileNameOf': 's', 'getWarpField': '-', 'giveCellsWithType': 't', 'incrRef': '-', 'isContiguous1D': '-', 'isEmptyMesh': 'i', 'isEqual': 'O Oe Oev me', 'isEqualIfNotWhy': 'O Oe Oev me', 'isEqualWithoutConsideringStr': 'O Oe Oev me', 'isFullyQuadratic': '-', 'isPresenceOfQuadratic': '-', 'isStructured': '-', 'keepCellIdsByType': 'ti', 'keepSpecifiedCells': 'ti', 'mergeMyselfWith': 'm', 'mergeMyselfWithOnSameCoords': 'm', 'orderConsecutiveCells1D': '-', 'partitionBySpreadZone': '-', 'reprConnectivityOfThis': '-', 'resizeForUnserialization': 'i', 'serialize': '-', 'simpleRepr': '-', 'splitByType': '-', 'splitProfilePerType': 'Ib', 'tetrahedrize': 'n', 'updateTime': '-', 'writeVTK': 'ns nss sb'},
'MEDCouplingCMesh': {'advancedRepr': '-', 'areCompatibleForMerge': 'O m', 'build1SGTSubLevelMesh': '-', 'build1SGTUnstructured': '-', 'buildCurveLinear': '-', 'buildOrthogonalField': '-', 'buildPart': 'i', 'buildPartAndReduceNodes': 'i', 'buildPartRange': 'nnn', 'buildPartRangeAndReduceNodes': 'nnn', 'buildStructuredSubPart': 'P', 'buildUnstructured': '-', 'checkConsistency': 'e', 'checkConsistencyLight': '-', 'checkDeepEquivalOnSameNodesWith': 'mne', 'checkDeepEquivalWith': 'mne', 'checkFastEquivalWith': 'me', 'checkGeoEquivalWith': 'mne', 'clone': '- b', 'computeCellCenterOfMass': '-', 'computeEffectiveNbOfNodesPerCell': '-', 'computeIsoBarycenterOfNodesPerCell': '-', 'computeMeshCenterOfMass': '-', 'computeNbOfFacesPerCell': '-', 'computeNbOfNodesPerCell': '-', 'computeSquareness': '-', 'debugHeapMemorySize': '-', 'declareAsNew': '-', 'decrRef': '-', 'deepCopy': '- OO', 'fillFromAnalytic': 'fns', 'fillFromAnalyticCompo': 'fns', 'getAllGeoTypes': '-', 'getAllTheProgeny': '-', 'getBoundingBox': '-', 'getCellContainingPoint': 'pe', 'getCellGridStructure': '-', 'getCellIdFromPos': 'nnn', 'getCellIdsFullyIncludedInNodeIds': 'i', 'getCellsContainingPoint': 'pe', 'getCellsContainingPoints': 'pne', 'getCellsContainingPointsLinearPartOnlyOnNonDynType': 'pne', 'getClassName': '-', 'getCoordinatesAndOwner': '-', 'getCoordinatesOfNode': 'n', 'getCoordsAt': 'n', 'getDescription': '-', 'getDirectAccessOfCoordsArrIfInStructure': '-', 'getDirectChildren': '-', 'getDistributionOfTypes': '-', 'getHeapMemorySize': '-', 'getHeapMemorySizeStr': '-', 'getHeapMemorySizeWithoutChildren': '-', 'getLocationFromCellId': 'n', 'getLocationFromNodeId': 'n', 'getMeasureField': 'b mb', 'getMeasureFieldOnNode': 'b', 'getMeshDimension': '-', 'getName': '-', 'getNodeGridStructure': '-', 'getNodeIdFromPos': 'nnn', 'getNodeIdsOfCell': 'n', 'getNumberOfCells': '-', 'getNumberOfCellsOfSubLevelMesh': '-', 'getNumberOfCellsWithType': 't', 'getNumberOfNodes': '-', 'getRCValue': '-', 'getReverseNodalConnectivity': '-', 'getSpaceDimension': '-', 'getSpaceDimensionOnNodeStruct': '-', 'getTime': '-', 'getTimeOfThis': '-', 'getTimeUnit': '-', 'getTinySerializationInformation': '-', 'getType': '-', 'getTypeOfCell': 'n', 'getVTKFileExtension': '-', 'getVTKFileNameOf': 's', 'giveCellsWithType': 't', 'incrRef': '-', 'isEqual': 'O Oe Oev me', 'isEqualIfNotWhy': 'O Oe Oev me', 'isEqualWithoutConsideringStr': 'O Oe Oev me', 'isStructured': '-', 'mergeMyselfWith': 'm', 'resizeForUnserialization': 'i', 'serialize': '-', 'simpleRepr': '-', 'splitProfilePerType': 'Ib', 'updateTime': '-', 'writeVTK': 'ns nss sb'},
'MEDCouplingIMesh': {'advancedRepr': '-', 'areCompatibleForMerge': 'O m', 'asSingleCell': '-', 'build1SGTSubLevelMesh': '-', 'build1SGTUnstructured': '-', 'buildOrthogonalField': '-', 'buildPart': 'i', 'buildPartAndReduceNodes': 'i', 'buildPartRange': 'nnn', 'buildPartRangeAndReduceNodes': 'nnn', 'buildStructuredSubPart': 'P', 'buildUnstructured': '-', 'buildWithGhost': 'n', 'checkConsistency': 'e', 'checkConsistencyLight': '-', 'checkDeepEquivalOnSameNodesWith': 'mne', 'checkDeepEquivalWith': 'mne', 'checkFastEquivalWith': 'me', 'checkGeoEquivalWith': 'mne', 'clone': '- b', 'computeCellCenterOfMass': '-', 'computeEffectiveNbOfNodesPerCell': '-', 'computeIsoBarycenterOfNodesPerCell': '-', 'computeMeshCenterOfMass': '-', 'computeNbOfFacesPerCell': '-', 'computeNbOfNodesPerCell': '-', 'computeSquareness': '-', 'convertToCartesian': '-', 'debugHeapMemorySize': '-', 'declareAsNew': '-', 'decrRef': '-', 'deepCopy': '- OO', 'fillFromAnalytic': 'fns', 'fillFromAnalyticCompo': 'fns', 'getAllGeoTypes': '-', 'getAllTheProgeny': '-', 'getAxisUnit': '-', 'getBoundingBox': '-', 'getCellContainingPoint': 'pe', 'getCellGridStructure': '-', 'getCellIdFromPos': 'nnn', 'getCellIdsFullyIncludedInNodeIds': 'i', 'getCellsContainingPoint': 'pe', 'getCellsContainingPoints': 'pne', 'getCellsContainingPointsLinearPartOnlyOnNonDynType': 'pne', 'getClassName': '-', 'getCoordinatesAndOwner': '-', 'getCoordinatesOfNode': 'n', 'getDXYZ': '-', 'getDescription': '-', 'getDirectAccessOfCoordsArrIfInStructure': '-', 'getDirectChildren': '-', 'getDistributionOfTypes': '-', 'getHeapMemorySize': '-', 'getHeapMemorySizeStr': '-', 'getHeapMemorySizeWithoutChildren': '-', 'getLocationFromCellId': 'n', 'getLocationFromNodeId': 'n', 'getMeasureField': 'b mb', 'getMeasureFieldOnNode': 'b', 'getMeasureOfAnyCell': '-', 'getMeshDimension': '-', 'getName': '-', 'getNodeGridStructure': '-', 'getNodeIdFromPos': 'nnn', 'getNodeIdsOfCell': 'n', 'getNodeStruct': '-', 'getNumberOfCells': '-', 'getNumberOfCellsOfSubLevelMesh': '-', 'getNumberOfCellsWithType': 't', 'getNumberOfNodes': '-', 'getOrigin': '-', 'getRCValue': '-', 'getReverseNodalConnectivity': '-', 'getSpaceDimension': '-', 'getSpaceDimensionOnNodeStruct': '-', 'getTime': '-', 'getTimeOfThis': '-', 'getTimeUnit': '-', 'getTinySerializationInformation': '-', 'getType': '-', 'getTypeOfCell': 'n', 'getVTKFileExtension': '-', 'getVTKFileNameOf': 's', 'giveCellsWithType': 't', 'incrRef': '-', 'isEqual': 'O Oe Oev me', 'isEqualIfNotWhy': 'O Oe Oev me', 'isEqualWithoutConsideringStr': 'O Oe Oev me', 'isStructured': '-', 'mergeMyselfWith': 'm', 'resizeForUnserialization': 'i', 'serialize': '-', 'simpleRepr': '-', 'splitProfilePerType': 'Ib', 'updateTime': '-', 'writeVTK': 'ns nss sb'},
'MEDCouplingCurveLinearMesh': {'advancedRepr': '-', 'areCompatibleForMerge': 'O m', 'build1SGTSubLevelMesh': '-', 'build1SGTUnstructured': '-', 'buildOrthogonalField': '-', 'buildPart': 'i', 'buildPartAndReduceNodes': 'i', 'buildPartRange': 'nnn', 'buildPartRangeAndReduceNodes': 'nnn', 'buildStructuredSubPart': 'P', 'buildUnstructured': '-', 'checkConsistency': 'e', 'checkConsistencyLight': '-', 'checkDeepEquivalOnSameNodesWith': 'mne', 'checkDeepEquivalWith': 'mne', 'checkFastEquivalWith': 'me', 'checkGeoEquivalWith': 'mne', 'clone': '- b', 'computeCellCenterOfMass': '-', 'computeEffectiveNbOfNodesPerCell': '-', 'computeIsoBarycenterOfNodesPerCell': '-', 'computeMeshCenterOfMass': '-', 'computeNbOfFacesPerCell': '-', 'computeNbOfNodesPerCell': '-', 'computeSquareness': '-', 'debugHeapMemorySize': '-', 'declareAsNew': '-', 'decrRef': '-', 'deepCopy': '- OO', 'fillFromAnalytic': 'fns', 'fillFromAnalyticCompo': 'fns', 'getAllGeoTypes': '-', 'getAllTheProgeny': '-', 'getBoundingBox': '-', 'getCellContainingPoint': 'pe', 'getCellGridStructure': '-', 'getCellIdFromPos': 'nnn', 'getCellIdsFullyIncludedInNodeIds': 'i', 'getCellsContainingPoint': 'pe', 'getCellsContainingPoints': 'pne', 'getCellsContainingPointsLinearPartOnlyOnNonDynType': 'pne', 'getClassName': '-', 'getCoordinatesAndOwner': '-', 'getCoordinatesOfNode': 'n', 'getCoords': '-', 'getDescription': '-', 'getDirectAccessOfCoordsArrIfInStructure': '-', 'getDirectChildren': '-', 'getDistributionOfTypes': '-', 'getHeapMemorySize': '-', 'getHeapMemorySizeStr': '-', 'getHeapMemorySizeWithoutChildren': '-', 'getLocationFromCellId': 'n', 'getLocationFromNodeId': 'n', 'getMeasureField': 'b mb', 'getMeasureFieldOnNode': 'b', 'getMeshDimension': '-', 'getName': '-', 'getNodeGridStructure': '-', 'getNodeIdFromPos': 'nnn', 'getNodeIdsOfCell': 'n', 'getNumberOfCells': '-', 'getNumberOfCellsOfSubLevelMesh': '-', 'getNumberOfCellsWithType': 't', 'getNumberOfNodes': '-', 'getRCValue': '-', 'getReverseNodalConnectivity': '-', 'getSpaceDimension': '-', 'getSpaceDimensionOnNodeStruct': '-', 'getTime': '-', 'getTimeOfThis': '-', 'getTimeUnit': '-', 'getTinySerializationInformation': '-', 'getType': '-', 'getTypeOfCell': 'n', 'getVTKFileExtension': '-', 'getVTKFileNameOf': 's', 'giveCellsWithType': 't', 'incrRef': '-', 'isEqual': 'O Oe Oev me', 'isEqualIfNotWhy': 'O Oe Oev me', 'isEqualWithoutConsideringStr': 'O Oe Oev me', 'isStructured': '-', 'mergeMyselfWith': 'm', 'resizeForUnserialization': 'i', 'serialize': '-', 'simpleRepr': '-', 'splitProfilePerType': 'Ib', 'updateTime': '-', 'writeVTK': 'ns nss sb'},
'MEDCoupling1SGTUMesh': {'advancedRepr': '-', 'areAllNodesFetched': '-', 'areCompatibleForMerge': 'O m', 'buildBoundaryMesh': 'b', 'buildFacePartOfMySelfNode': 'ib', 'buildNewNumberingFromCommonNodesFormat': 'II', 'buildOrthogonalField': '-', 'buildPart': 'i', 'buildPartAndReduceNodes': 'i', 'buildPartOfMySelf': 'ib', 'buildPartOfMySelfKeepCoords': 'i', 'buildPartOfMySelfKeepCoordsSlice': 'nnn', 'buildPartOfMySelfNode': 'ib', 'buildPartOfMySelfSlice': 'nnnb', 'buildPartRange': 'nnn', 'buildPartRangeAndReduceNodes': 'nnn', 'buildSetInstanceFromThis': 'n', 'buildUnstructured': '-', 'checkConsistency': 'e', 'checkConsistencyLight': '-', 'checkConsistencyOfConnectivity': '-', 'checkDeepEquivalOnSameNodesWith': 'mne', 'checkDeepEquivalWith': 'mne', 'checkFastEquivalWith': 'me', 'checkFullyDefined': '-', 'checkGeoEquivalWith': 'mne', 'clone': '- b', 'computeCellCenterOfMass': '-', 'computeDiameterField': '-', 'computeDualMesh': '-', 'computeEffectiveNbOfNodesPerCell': '-', 'computeFetchedNodeIds': '-', 'computeIsoBarycenterOfNodesPerCell': '-', 'computeMeshCenterOfMass': '-', 'computeNbOfFacesPerCell': '-', 'computeNbOfNodesPerCell': '-', 'computeTriangleHeight': '-', 'debugHeapMemorySize': '-', 'declareAsNew': '-', 'decrRef': '-', 'deepCopy': '- OO', 'deepCopyConnectivityOnly': '-', 'explodeEachHexa8To6Quad4': '-', 'fillCellIdsToKeepFromNodeIds': 'ib', 'fillFromAnalytic': 'fns', 'fillFromAnalyticCompo': 'fns', 'findBoundaryNodes': '-', 'findCommonCells': 'nn', 'findCommonNodes': 'en', 'findNodesOnLine': 'ppe', 'findNodesOnPlane': 'ppe', 'getAllGeoTypes': '-', 'getAllTheProgeny': '-', 'getBoundingBox': '-', 'getBoundingBoxForBBTree': 'e', 'getCaracteristicDimension': '-', 'getCellContainingPoint': 'pe', 'getCellIdsFullyIncludedInNodeIds': 'i', 'getCellIdsLyingOnNodes': 'ib', 'getCellModelEnum': '-', 'getCellsContainingPoint': 'pe', 'getCellsContainingPoints': 'pne', 'getCellsContainingPointsLinearPartOnlyOnNonDynType': 'pne', 'getCellsInBoundingBox': 'pe', 'getClassName': '-', 'getCoordinatesAndOwner': '-', 'getCoordinatesOfNode': 'n', 'getCoords': '-', 'getDescription': '-', 'getDirectAccessOfCoordsArrIfInStructure': '-', 'getDirectChildren': '-', 'getDistributionOfTypes': '-', 'getHeapMemorySize': '-', 'getHeapMemorySizeStr': '-', 'getHeapMemorySizeWithoutChildren': '-', 'getMeasureField': 'b mb', 'getMeasureFieldOnNode': 'b', 'getMeshDimension': '-', 'getName': '-', 'getNodalConnectivity': '-', 'getNodalConnectivityLength': '-', 'getNodeIdsInUse': '-', 'getNodeIdsNearPoint': 'pe', 'getNodeIdsNearPoints': 'pne', 'getNodeIdsOfCell': 'n', 'getNumberOfCells': '-', 'getNumberOfCellsWithType': 't', 'getNumberOfNodes': '-', 'getNumberOfNodesInCell': 'n', 'getNumberOfNodesPerCell': '-', 'getRCValue': '-', 'getReverseNodalConnectivity': '-', 'getSpaceDimension': '-', 'getTime': '-', 'getTimeOfThis': '-', 'getTimeUnit': '-', 'getTinySerializationInformation': '-', 'getType': '-', 'getTypeOfCell': 'n', 'getVTKFileExtension': '-', 'getVTKFileNameOf': 's', 'giveCellsWithType': 't', 'incrRef': '-', 'isEmptyMesh': 'i', 'isEqual': 'O Oe Oev me', 'isEqualIfNotWhy': 'O Oe Oev me', 'isEqualWithoutConsideringStr': 'O Oe Oev me', 'isStructured': '-', 'mergeMyselfWith': 'm', 'mergeMyselfWithOnSameCoords': 'm', 'resizeForUnserialization': 'i', 'serialize': '-', 'simpleRepr': '-', 'splitProfilePerType': 'Ib', 'structurizeMe': 'e', 'updateTime': '-', 'writeVTK': 'ns nss sb'},
'MEDCoupling1DGTUMesh': {'advancedRepr': '-', 'areAllNodesFetched': '-', 'areCompatibleForMerge': 'O m', 'buildBoundaryMesh': 'b', 'buildFacePartOfMySelfNode': 'ib', 'buildNewNumberingFromCommonNodesFormat': 'II', 'buildOrthogonalField': '-', 'buildPart': 'i', 'buildPartAndReduceNodes': 'i', 'buildPartOfMySelf': 'ib', 'buildPartOfMySelfKeepCoords': 'i', 'buildPartOfMySelfKeepCoordsSlice': 'nnn', 'buildPartOfMySelfNode': 'ib', 'buildPartOfMySelfSlice': 'nnnb', 'buildPartRange': 'nnn', 'buildPartRangeAndReduceNodes': 'nnn', 'buildSetInstanceFromThis': 'n', 'buildUnstructured': '-', 'checkConsistency': 'e', 'checkConsistencyLight': '-', 'checkConsistencyOfConnectivity': '-', 'checkDeepEquivalOnSameNodesWith': 'mne', 'checkDeepEquivalWith': 'mne', 'checkFastEquivalWith': 'me', 'checkFullyDefined': '-', 'checkGeoEquivalWith': 'mne', 'clone': '- b', 'computeCellCenterOfMass': '-', 'computeDiameterField': '-', 'computeEffectiveNbOfNodesPerCell': '-', 'computeEulerCharacteristic': '-', 'computeFetchedNodeIds': '-', 'computeIsoBarycenterOfNodesPerCell': '-', 'computeMeshCenterOfMass': '-', 'computeNbOfFacesPerCell': '-', 'computeNbOfNodesPerCell': '-', 'copyWithNodalConnectivityPacked': '-', 'debugHeapMemorySize': '-', 'declareAsNew': '-', 'decrRef': '-', 'deepCopy': '- OO', 'deepCopyConnectivityOnly': '-', 'fillCellIdsToKeepFromNodeIds': 'ib', 'fillFromAnalytic': 'fns', 'fillFromAnalyticCompo': 'fns', 'findBoundaryNodes': '-', 'findCommonCells': 'nn', 'findCommonNodes': 'en', 'findNodesOnLine': 'ppe', 'findNodesOnPlane': 'ppe', 'getAllGeoTypes': '-', 'getAllTheProgeny': '-', 'getBoundingBox': '-', 'getBoundingBoxForBBTree': 'e', 'getCaracteristicDimension': '-', 'getCellContainingPoint': 'pe', 'getCellIdsFullyIncludedInNodeIds': 'i', 'getCellIdsLyingOnNodes': 'ib', 'getCellModelEnum': '-', 'getCellsContainingPoint': 'pe', 'getCellsContainingPoints': 'pne', 'getCellsContainingPointsLinearPartOnlyOnNonDynType': 'pne', 'getCellsInBoundingBox': 'pe', 'getClassName': '-', 'getCoordinatesAndOwner': '-', 'getCoordinatesOfNode': 'n', 'getCoords': '-', 'getDescription': '-', 'getDirectAccessOfCoordsArrIfInStructure': '-', 'getDirectChildren': '-', 'getDistributionOfTypes': '-', 'getHeapMemorySize': '-', 'getHeapMemorySizeStr': '-', 'getHeapMemorySizeWithoutChildren': '-', 'getMeasureField': 'b mb', 'getMeasureFieldOnNode': 'b', 'getMeshDimension': '-', 'getName': '-', 'getNodalConnectivity': '-', 'getNodalConnectivityIndex': '-', 'getNodalConnectivityLength': '-', 'getNodeIdsInUse': '-', 'getNodeIdsNearPoint': 'pe', 'getNodeIdsNearPoints': 'pne', 'getNodeIdsOfCell': 'n', 'getNumberOfCells': '-', 'getNumberOfCellsWithType': 't', 'getNumberOfNodes': '-', 'getNumberOfNodesInCell': 'n', 'getRCValue': '-', 'getReverseNodalConnectivity': '-', 'getSpaceDimension': '-', 'getTime': '-', 'getTimeOfThis': '-', 'getTimeUnit': '-', 'getTinySerializationInformation': '-', 'getType': '-', 'getTypeOfCell': 'n', 'getVTKFileExtension': '-', 'getVTKFileNameOf': 's', 'giveCellsWithType': 't', 'incrRef': '-', 'isEmptyMesh': 'i', 'isEqual': 'O Oe Oev me', 'isEqualIfNotWhy': 'O Oe Oev me', 'isEqualWithoutConsideringStr': 'O Oe Oev me', 'isPacked': '-', 'isStructured': '-', 'mergeMyselfWith': 'm', 'mergeMyselfWithOnSameCoords': 'm', 'resizeForUnserialization': 'i', 'retrievePackedNodalConnectivity': '-', 'serialize': '-', 'simpleRepr': '-', 'splitProfilePerType': 'Ib', 'updateTime': '-', 'writeVTK': 'ns nss sb'},
'MEDCouplingMappedExtrudedMesh': {'advancedRepr': '-', 'areCompatibleForMerge': 'O m', 'build3DUnstructuredMesh': '-', 'buildOrthogonalField': '-', 'buildPart': 'i', 'buildPartAndReduceNodes': 'i', 'buildPartRange': 'nnn', 'buildPartRangeAndReduceNodes': 'nnn', 'buildUnstructured': '-', 'checkConsistency': 'e', 'checkConsistencyLight': '-', 'checkDeepEquivalOnSameNodesWith': 'mne', 'checkDeepEquivalWith': 'mne', 'checkFastEquivalWith': 'me', 'checkGeoEquivalWith': 'mne', 'clone': '- b', 'computeCellCenterOfMass': '-', 'computeEffectiveNbOfNodesPerCell': '-', 'computeIsoBarycenterOfNodesPerCell': '-', 'computeMeshCenterOfMass': '-', 'computeNbOfFacesPerCell': '-', 'computeNbOfNodesPerCell': '-', 'debugHeapMemorySize': '-', 'declareAsNew': '-', 'decrRef': '-', 'deepCopy': '- OO', 'fillFromAnalytic': 'fns', 'fillFromAnalyticCompo': 'fns', 'get2DCellIdForExtrusion': '-', 'getAllGeoTypes': '-', 'getAllTheProgeny': '-', 'getBoundingBox': '-', 'getCellContainingPoint': 'pe', 'getCellIdsFullyIncludedInNodeIds': 'i', 'getCellsContainingPoint': 'pe', 'getCellsContainingPoints': 'pne', 'getCellsContainingPointsLinearPartOnlyOnNonDynType': 'pne', 'getClassName': '-', 'getCoordinatesAndOwner': '-', 'getCoordinatesOfNode': 'n', 'getDescription': '-', 'getDirectAccessOfCoordsArrIfInStructure': '-', 'getDirectChildren': '-', 'getDistributionOfTypes': '-', 'getHeapMemorySize': '-', 'getHeapMemorySizeStr': '-', 'getHeapMemorySizeWithoutChildren': '-', 'getMeasureField': 'b mb', 'getMeasureFieldOnNode': 'b', 'getMesh1D': '-', 'getMesh2D': '-', 'getMesh3DIds': '-', 'getMeshDimension': '-', 'getName': '-', 'getNodeIdsOfCell': 'n', 'getNumberOfCells': '-', 'getNumberOfCellsWithType': 't', 'getNumberOfNodes': '-', 'getRCValue': '-', 'getReverseNodalConnectivity': '-', 'getSpaceDimension': '-', 'getTime': '-', 'getTimeOfThis': '-', 'getTimeUnit': '-', 'getTinySerializationInformation': '-', 'getType': '-', 'getTypeOfCell': 'n', 'getVTKFileExtension': '-', 'getVTKFileNameOf': 's', 'giveCellsWithType': 't', 'incrRef': '-', 'isEqual': 'O Oe Oev me', 'isEqualIfNotWhy': 'O Oe Oev me', 'isEqualWithoutConsideringStr': 'O Oe Oev me', 'isStructured': '-', 'mergeMyselfWith': 'm', 'resizeForUnserialization': 'i', 'serialize': '-', 'simpleRepr': '-', 'splitProfilePerType': 'Ib', 'updateTime': '-', 'writeVTK': 'ns nss sb'},
'MEDCouplingCartesianAMRMesh': {'buildCellFieldOnRecurseWithoutOverlapWithoutGhost': 's', 'buildMeshFromPatchEnvelop': '-', 'buildMeshOfDirectChildrenOnly': '-', 'buildPythonDumpOfThis': '-', 'buildUnstructured': '-', 'createCellFieldOnPatch': 'nD', 'debugHeapMemorySize': '-', 'declareAsNew': '-', 'decrRef': '-', 'deepCopy': '- OO', 'extractGhostFrom': 'nD', 'fillCellFieldComingFromPatch': 'nDb', 'fillCellFieldComingFromPatchGhost': 'nDnb', 'fillCellFieldOnPatch': 'nDb', 'fillCellFieldOnPatchGhost': 'nDnb', 'fillCellFieldOnPatchOnlyOnGhostZone': 'nDn', 'findPatchesInTheNeighborhoodOf': 'nn', 'getAbsoluteLevel': '-', 'getAbsoluteLevelRelativeTo': 'O', 'getAllTheProgeny': '-', 'getClassName': '-', 'getDirectChildren': '-', 'getFactors': '-', 'getFather': '-', 'getGodFather': '-', 'getHeapMemorySize': '-', 'getHeapMemorySizeStr': '-', 'getHeapMemorySizeWithoutChildren': '-', 'getImageMesh': '-', 'getMaxNumberOfLevelsRelativeToThis': '-', 'getMeshAtPosition': 'i', 'getNumberOfCellsAtCurrentLevel': '-', 'getNumberOfCellsAtCurrentLevelGhost': 'n', 'getNumberOfCellsRecursiveWithOverlap': '-', 'getNumberOfCellsRecursiveWithoutOverlap': '-', 'getNumberOfPatches': '-', 'getPatch': 'n', 'getPatchAtPosition': 'i', 'getPatchIdFromChildMesh': 'O', 'getPatchIdsInTheNeighborhoodOf': 'nn', 'getPatches': '-', 'getPositionRelativeTo': 'O', 'getRCValue': '-', 'getSpaceDimension': '-', 'getTimeOfThis': '-', 'incrRef': '-', 'isPatchInNeighborhoodOf': 'nnn', 'positionRelativeToGodFather': '-', 'retrieveGridsAt': 'n', 'updateTime': '-'},
'MEDCouplingFieldDouble': {'accumulate': '- n', 'advancedRepr': '-', 'applyFunc': 'nsb sb', 'applyFuncCompo': 'nsb', 'areCompatibleForMerge': 'O m', 'areStrictlyCompatible': 'O', 'areStrictlyCompatibleForMulDiv': 'O', 'buildMeasureField': 'b', 'buildSubMeshData': 'i mi', 'buildSubMeshDataRange': 'mnnn nnn', 'buildSubPart': 'I i', 'buildSubPartRange': 'nnn', 'cellToNodeDiscretization': '-', 'changeNbOfComponents': 'nv', 'checkConsistencyLight': '-', 'clone': '- b', 'cloneWithMesh': 'b', 'computeTupleIdsToSelectFromCellIds': 'i mi', 'computeVectorFieldCyl': 'Dpp pp', 'convertQuadraticCellsToLinear': '-', 'convertToFloatField': '-', 'convertToIntField': '-', 'crossProduct': 'O', 'debugHeapMemorySize': '-', 'declareAsNew': '-', 'decrRef': '-', 'deepCopy': '- OO', 'determinant': '-', 'deviator': '-', 'dot': 'O', 'doublyContractedProduct': '-', 'eigenValues': '-', 'eigenVectors': '-', 'extractSlice3D': 'ppe', 'fillFromAnalytic': 'fns', 'fillFromAnalyticCompo': 'fns', 'findIdsInRange': 'cc ee vv', 'getAllTheProgeny': '-', 'getArray': '-', 'getArrays': '-', 'getAverageValue': '-', 'getCellIdsHavingGaussLocalization': 'n', 'getClassName': '-', 'getDescription': '-', 'getDirectChildren': '-', 'getDiscretization': '-', 'getEndArray': '-', 'getEndTime': '-', 'getGaussLocalization': 'n', 'getGaussLocalizationIdOfOneCell': 'n', 'getGaussLocalizationIdOfOneType': 't', 'getGaussLocalizationIdsOfOneType': 't', 'getHeapMemorySize': '-', 'getHeapMemorySizeStr': '-', 'getHeapMemorySizeWithoutChildren': '-', 'getIJ': 'nn', 'getIJK': 'mDnnn nnn', 'getLocalizationOfDiscr': '-', 'getMaxValue': '-', 'getMaxValue2': '-', 'getMesh': '-', 'getMinValue': '-', 'getMinValue2': '-', 'getName': '-', 'getNature': '-', 'getNbOfGaussLocalization': '-', 'getNumberOfComponents': '-', 'getNumberOfMeshPlacesExpected': '-', 'getNumberOfTuples': '- m', 'getNumberOfTuplesExpected': '-', 'getNumberOfValues': '-', 'getQuantityKind': '-', 'getRCValue': '-', 'getStartTime': '-', 'getTime': '-', 'getTimeDiscretization': '-', 'getTimeOfThis': '-', 'getTimeTolerance': '-', 'getTimeUnit': '-', 'getTinySerializationInformation': '-', 'getTypeOfField': '-', 'getValueOn': 'Dmp p pe', 'getValueOnMulti': 'Dmpn pn', 'getValueOnPos': 'Dmnnn nnn', 'getWeightedAverageValue': 'b nb', 'incrRef': '-', 'integral': 'b mDb nb', 'inverse': '-', 'isEqual': 'O Oe Oev me', 'isEqualIfNotWhy': 'O Oe Oev me', 'isEqualWithoutConsideringStr': 'O Oe Oev me', 'locateDotSignChangeFor': 'D', 'magnitude': '-', 'max': 'O', 'maxPerTuple': '-', 'min': 'O', 'negate': '-', 'nodeToCellDiscretization': '-', 'norm2': '-', 'normL1': '- mD n', 'normL2': '- mD n', 'normMax': '- n', 'serialize': '-', 'simpleRepr': '-', 'trace': '-', 'updateTime': '-', 'voronoize': 'e', 'writeVTK': 'ns nss sb'},
'MEDCouplingFieldInt64': {'areCompatibleForMerge': 'O m', 'areStrictlyCompatible': 'O', 'areStrictlyCompatibleForMulDiv': 'O', 'buildMeasureField': 'b', 'buildSubMeshData': 'i mi', 'buildSubMeshDataRange': 'mnnn nnn', 'buildSubPart': 'I i', 'buildSubPartRange': 'nnn', 'checkConsistencyLight': '-', 'clone': '- b', 'cloneWithMesh': 'b', 'computeTupleIdsToSelectFromCellIds': 'i mi', 'convertToDblField': '-', 'debugHeapMemorySize': '-', 'declareAsNew': '-', 'decrRef': '-', 'deepCopy': '- OO', 'getAllTheProgeny': '-', 'getArray': '-', 'getCellIdsHavingGaussLocalization': 'n', 'getClassName': '-', 'getDescription': '-', 'getDirectChildren': '-', 'getDiscretization': '-', 'getGaussLocalization': 'n', 'getGaussLocalizationIdOfOneCell': 'n', 'getGaussLocalizationIdOfOneType': 't', 'getGaussLocalizationIdsOfOneType': 't', 'getHeapMemorySize': '-', 'getHeapMemorySizeStr': '-', 'getHeapMemorySizeWithoutChildren': '-', 'getLocalizationOfDiscr': '-', 'getMesh': '-', 'getName': '-', 'getNature': '-', 'getNbOfGaussLocalization': '-', 'getNumberOfMeshPlacesExpected': '-', 'getNumberOfTuplesExpected': '-', 'getQuantityKind': '-', 'getRCValue': '-', 'getTime': '-', 'getTimeDiscretization': '-', 'getTimeOfThis': '-', 'getTimeUnit': '-', 'getTinySerializationInformation': '-', 'getTypeOfField': '-', 'incrRef': '-', 'isEqual': 'O Oe Oev me', 'isEqualIfNotWhy': 'O Oe Oev me', 'isEqualWithoutConsideringStr': 'O Oe Oev me', 'serialize': '-', 'updateTime': '-'},
'MEDCouplingFieldFloat': {'areCompatibleForMerge': 'O m', 'areStrictlyCompatible': 'O', 'areStrictlyCompatibleForMulDiv': 'O', 'buildMeasureField': 'b', 'buildSubMeshData': 'i mi', 'buildSubMeshDataRange': 'mnnn nnn', 'buildSubPart': 'I i', 'buildSubPartRange': 'nnn', 'checkConsistencyLight': '-', 'clone': '- b', 'cloneWithMesh': 'b', 'computeTupleIdsToSelectFromCellIds': 'i mi', 'convertToDblField': '-', 'debugHeapMemorySize': '-', 'declareAsNew': '-', 'decrRef': '-', 'deepCopy': '- OO', 'getAllTheProgeny': '-', 'getArray': '-', 'getCellIdsHavingGaussLocalization': 'n', 'getClassName': '-', 'getDescription': '-', 'getDirectChildren': '-', 'getDiscretization': '-', 'getGaussLocalization': 'n', 'getGaussLocalizationIdOfOneCell': 'n', 'getGaussLocalizationIdOfOneType': 't', 'getGaussLocalizationIdsOfOneType': 't', 'getHeapMemorySize': '-', 'getHeapMemorySizeStr': '-', 'getHeapMemorySizeWithoutChildren': '-', 'getLocalizationOfDiscr': '-', 'getMesh': '-', 'getName': '-', 'getNature': '-', 'getNbOfGaussLocalization': '-', 'getNumberOfMeshPlacesExpected': '-', 'getNumberOfTuplesExpected': '-', 'getQuantityKind': '-', 'getRCValue': '-', 'getTime': '-', 'getTimeDiscretization': '-', 'getTimeOfThis': '-', 'getTimeUnit': '-', 'getTinySerializationInformation': '-', 'getTypeOfField': '-', 'incrRef': '-', 'isEqual': 'O Oe Oev me', 'isEqualIfNotWhy': 'O Oe Oev me', 'isEqualWithoutConsideringStr': 'O Oe Oev me', 'serialize': '-', 'updateTime': '-'},
'MEDCouplingFieldTemplate': {'advancedRepr': '-', 'areCompatibleForMerge': 'O m', 'areStrictlyCompatible': 'O', 'areStrictlyCompatibleForMulDiv': 'O', 'buildMeasureField': 'b', 'buildSubMeshData': 'i mi', 'buildSubMeshDataRange': 'mnnn nnn', 'checkConsistencyLight': '-', 'computeTupleIdsToSelectFromCellIds': 'i mi', 'debugHeapMemorySize': '-', 'declareAsNew': '-', 'decrRef': '-', 'getAllTheProgeny': '-', 'getCellIdsHavingGaussLocalization': 'n', 'getClassName': '-', 'getDescription': '-', 'getDirectChildren': '-', 'getDiscretization': '-', 'getGaussLocalization': 'n', 'getGaussLocalizationIdOfOneCell': 'n', 'getGaussLocalizationIdOfOneType': 't', 'getGaussLocalizationIdsOfOneType': 't', 'getHeapMemorySize': '-', 'getHeapMemorySizeStr': '-', 'getHeapMemorySizeWithoutChildren': '-', 'getLocalizationOfDiscr': '-', 'getMesh': '-', 'getName': '-', 'getNature': '-', 'getNbOfGaussLocalization': '-', 'getNumberOfMeshPlacesExpected': '-', 'getNumberOfTuplesExpected': '-', 'getRCValue': '-', 'getTimeOfThis': '-', 'getTypeOfField': '-', 'incrRef': '-', 'isEqual': 'O Oe Oev me', 'isEqualIfNotWhy': 'O Oe Oev me', 'isEqualWithoutConsideringStr': 'O Oe Oev me', 'simpleRepr': '-', 'updateTime': '-'},
'MEDCouplingSkyLineArray': {'convertToPolyhedronConn': '-', 'deepCopy': '- OO', 'findPackIds': 'ii', 'getIndexArray': '-', 'getLength': '-', 'getNumberOf': '-', 'getSuperIndexArray': '-', 'getSuperNumberOf': '-', 'getValuesArray': '-', 'groupPacks': 'I', 'thresholdPerPack': 'n', 'uniqueNotSortedByPack': '-'},
'DenseMatrix': {'debugHeapMemorySize': '-', 'declareAsNew': '-', 'decrRef': '-', 'deepCopy': '- OO', 'getAllTheProgeny': '-', 'getClassName': '-', 'getData': '-', 'getDirectChildren': '-', 'getHeapMemorySize': '-', 'getHeapMemorySizeStr': '-', 'getHeapMemorySizeWithoutChildren': '-', 'getNbOfElems': '-', 'getNumberOfCols': '-', 'getNumberOfRows': '-', 'getRCValue': '-', 'getTimeOfThis': '-', 'incrRef': '-', 'isEqual': 'O Oe Oev me', 'isEqualIfNotWhy': 'O Oe Oev me', 'matVecMult': 'D', 'shallowCpy': '-', 'updateTime': '-'},
}
