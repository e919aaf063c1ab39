// one translation unit per pair of element types: -DZT1=.. -DZT2=.. -DZFN=..
#include "zdrv.hxx"
const OpsBase & ZFN(int i) {
    static const TypedOps<ZT1> a; static const TypedOps<ZT2> b;
    return i == 0 ? static_cast<const OpsBase &>(a) : static_cast<const OpsBase &>(b);
}
