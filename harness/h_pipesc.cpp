// Pipes: all compositions of segments, with all sequences of operations, against a model of each segment.
// mc: property=P21 flavour=asan,opt stores=SigStore flags=-DSTORED_DRAFT_API=1
#include "common/pipes.h"

using namespace pt;

typedef List<
	KIdentity, KBuffer, KObserve, KModify, KFunction, KBounded, KConvert, KTee, KTriggered, KChanges, KTransistor,
	KTransistorInv, KMap, KRandomMap, KSet, KRate, KLog, KSignal>
	All;

typedef List<KMap, KRandomMap, KSet, KRate, KLog, KSignal> Part;

template <typename... K>
static void pairs(std::vector<runner>& r, List<K...>)
{
	int d[] = {(with1<K>(r, All{}), 0)...};
	(void)d;
}

typedef List<KBuffer, KTriggered, KChanges, KTransistor, KSet, KRate> Stateful;

void mc::setup(bool)
{
	static std::vector<runner> r2;
	pairs(r2, Part{});
	static std::vector<runner> rt;
	all1(rt, Stateful{});
	rt.push_back(&R2<KRate, KRate>::go);
	rt.push_back(&R2<KChanges, KRate>::go);
	rt.push_back(&R2<KRate, KTransistor>::go);
	add("timed", "single and double segments with a state, all longer sequences of inject, trigger, and passing time", (int)rt.size(),
	    [](Explorer& ex) {
		    timed = true;
		    rt[(size_t)ex.shardChoose((int)rt.size())](ex, (mc::slow ? 6 : 7) + (ex.thorough ? 1 : 0));
		    timed = false;
	    });
	add("doubleC", "all compositions of two segments, starting with Map, RandomMap, Set, Rate, Log, Signal, all sequences of operations", (int)r2.size(),
	    [](Explorer& ex) {
		    timed = false;
		    r2[(size_t)ex.shardChoose((int)r2.size())](ex, (mc::slow ? 3 : 4) + (ex.thorough ? 1 : 0));
	    });
}

MC_MAIN
