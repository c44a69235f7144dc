// Pipes of three segments: all compositions, with all sequences of operations, against a model of each segment.
// mc: property=P21 flavour=asan,opt stores=SigStore flags=-DSTORED_DRAFT_API=1
#include "common/pipes.h"

using namespace pt;

typedef List<KBuffer, KModify, KTriggered, KMap, KRate> Some;

void mc::setup(bool)
{
	static std::vector<runner> r;
	all3(r, Some{});
	add("triple", "all compositions of three segments out of five, all sequences of operations", (int)r.size(),
	    [](Explorer& ex) { r[(size_t)ex.shardChoose((int)r.size())](ex, (mc::slow ? 3 : 4) + (ex.thorough ? 1 : 0)); });
}

MC_MAIN
