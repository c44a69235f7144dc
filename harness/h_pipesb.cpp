// Pipes: all compositions of segments, with all sequences of operations, against a model of each segment.
// mc: property=P21 flavour=asan,opt stores=SigStore flags=-DSTORED_DRAFT_API=1
#include "common/pipes.h"

using namespace pt;

typedef List<
	KIdentity, KBuffer, KObserve, KModify, KFunction, KBounded, KConvert, KTee, KTriggered, KChanges, KTransistor,
	KTransistorInv, KMap, KRandomMap, KSet, KRate, KLog, KSignal>
	All;

typedef List<KConvert, KTee, KTriggered, KChanges, KTransistor, KTransistorInv> Part;

template <typename... K>
static void pairs(std::vector<runner>& r, List<K...>)
{
	int d[] = {(with1<K>(r, All{}), 0)...};
	(void)d;
}

void mc::setup(bool)
{
	static std::vector<runner> r2;
	pairs(r2, Part{});
	add("doubleB", "all compositions of two segments, starting with Convert, Tee, Triggered, Changes, Transistor, TransistorInv, all sequences of operations", (int)r2.size(),
	    [](Explorer& ex) { r2[(size_t)ex.shardChoose((int)r2.size())](ex, (mc::slow ? 3 : 4) + (ex.thorough ? 1 : 0)); });
}

MC_MAIN
