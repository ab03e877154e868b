// Function table over the library's container API, so that the same histories can drive several builds.
#pragma once
#include <Zycore/Allocator.h>
#include <Zycore/Bitset.h>
#include <Zycore/Format.h>
#include <Zycore/List.h>
#include <Zycore/String.h>
#include <Zycore/Vector.h>
#include <Zycore/ArgParse.h>

#define ZY_API_CORE(X) \
    X(ZyanAllocatorInit) \
    X(ZyanBitsetInitEx) X(ZyanBitsetInitBuffer) X(ZyanBitsetDestroy) X(ZyanBitsetPerformByteOperation) \
    X(ZyanBitsetAND) X(ZyanBitsetOR) X(ZyanBitsetXOR) X(ZyanBitsetFlip) X(ZyanBitsetSet) X(ZyanBitsetReset) \
    X(ZyanBitsetAssign) X(ZyanBitsetToggle) X(ZyanBitsetTest) X(ZyanBitsetTestMSB) X(ZyanBitsetTestLSB) \
    X(ZyanBitsetSetAll) X(ZyanBitsetResetAll) X(ZyanBitsetPush) X(ZyanBitsetPop) X(ZyanBitsetClear) \
    X(ZyanBitsetReserve) X(ZyanBitsetShrinkToFit) X(ZyanBitsetGetSize) X(ZyanBitsetGetCapacity) \
    X(ZyanBitsetGetSizeBytes) X(ZyanBitsetGetCapacityBytes) X(ZyanBitsetCount) X(ZyanBitsetAll) \
    X(ZyanBitsetAny) X(ZyanBitsetNone) \
    X(ZyanStringAppendDecU) X(ZyanStringAppendDecS) X(ZyanStringAppendHexU) X(ZyanStringAppendHexS) \
    X(ZyanListInitEx) X(ZyanListInitCustomBuffer) X(ZyanListDestroy) X(ZyanListGetHeadNode) \
    X(ZyanListGetTailNode) X(ZyanListGetPrevNode) X(ZyanListGetNextNode) X(ZyanListGetNodeData) \
    X(ZyanListGetNodeDataEx) X(ZyanListGetNodeDataMutable) X(ZyanListGetNodeDataMutableEx) \
    X(ZyanListSetNodeData) X(ZyanListPushBack) X(ZyanListPushFront) X(ZyanListEmplaceBack) \
    X(ZyanListEmplaceFront) X(ZyanListPopBack) X(ZyanListPopFront) X(ZyanListRemove) X(ZyanListRemoveRange) \
    X(ZyanListClear) X(ZyanListResize) X(ZyanListResizeEx) X(ZyanListGetSize) \
    X(ZyanStringInitEx) X(ZyanStringInitCustomBuffer) X(ZyanStringDestroy) X(ZyanStringDuplicateEx) \
    X(ZyanStringDuplicateCustomBuffer) X(ZyanStringConcatEx) X(ZyanStringConcatCustomBuffer) \
    X(ZyanStringViewInsideView) X(ZyanStringViewInsideViewEx) X(ZyanStringViewInsideBuffer) \
    X(ZyanStringViewInsideBufferEx) X(ZyanStringViewGetSize) X(ZyanStringViewGetData) X(ZyanStringGetChar) \
    X(ZyanStringGetCharMutable) X(ZyanStringSetChar) X(ZyanStringInsert) X(ZyanStringInsertEx) \
    X(ZyanStringAppend) X(ZyanStringAppendEx) X(ZyanStringDelete) X(ZyanStringTruncate) X(ZyanStringClear) \
    X(ZyanStringLPos) X(ZyanStringLPosEx) X(ZyanStringLPosI) X(ZyanStringLPosIEx) X(ZyanStringRPos) \
    X(ZyanStringRPosEx) X(ZyanStringRPosI) X(ZyanStringRPosIEx) X(ZyanStringCompare) X(ZyanStringCompareI) \
    X(ZyanStringToLowerCase) X(ZyanStringToLowerCaseEx) X(ZyanStringToUpperCase) X(ZyanStringToUpperCaseEx) \
    X(ZyanStringResize) X(ZyanStringReserve) X(ZyanStringShrinkToFit) X(ZyanStringGetCapacity) \
    X(ZyanStringGetSize) X(ZyanStringGetData) \
    X(ZyanVectorInitEx) X(ZyanVectorInitCustomBuffer) X(ZyanVectorDestroy) X(ZyanVectorDuplicateEx) \
    X(ZyanVectorDuplicateCustomBuffer) X(ZyanVectorGet) X(ZyanVectorGetMutable) X(ZyanVectorGetPointer) \
    X(ZyanVectorGetPointerMutable) X(ZyanVectorSet) X(ZyanVectorPushBack) X(ZyanVectorInsert) \
    X(ZyanVectorInsertRange) X(ZyanVectorEmplace) X(ZyanVectorEmplaceEx) X(ZyanVectorSwapElements) \
    X(ZyanVectorDelete) X(ZyanVectorDeleteRange) X(ZyanVectorPopBack) X(ZyanVectorClear) X(ZyanVectorFind) \
    X(ZyanVectorFindEx) X(ZyanVectorBinarySearch) X(ZyanVectorBinarySearchEx) X(ZyanVectorResize) \
    X(ZyanVectorResizeEx) X(ZyanVectorReserve) X(ZyanVectorShrinkToFit) X(ZyanVectorGetCapacity) \
    X(ZyanVectorGetSize) X(ZyanArgParseEx)

#define ZY_API_LIBC(X) \
    X(ZyanAllocatorDefault) X(ZyanVectorInit) X(ZyanVectorDuplicate) X(ZyanListInit) X(ZyanStringInit) \
    X(ZyanStringDuplicate) X(ZyanStringConcat) X(ZyanBitsetInit) X(ZyanStringAppendFormat)

struct Api
{
#define X(f) decltype(&::f) f;
    ZY_API_CORE(X)
    ZY_API_LIBC(X)
#undef X
    const char* name;
};

inline const Api& native_api()
{
    static const Api a = {
#define X(f) &::f,
        ZY_API_CORE(X)
        ZY_API_LIBC(X)
#undef X
        "native"};
    return a;
}
