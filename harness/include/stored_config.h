// Configuration used by the harnesses.
#ifndef LIBSTORED_CONFIG_H
#	error Do not include this file directly
#endif
#ifndef STORED_CONFIG_H
#	define STORED_CONFIG_H
#	ifdef __cplusplus
#		ifdef VERIF_CONFIG_ALLOC
#			include VERIF_CONFIG_ALLOC
#		endif
namespace stored {
struct Config : public DefaultConfig {
	static bool const DebuggerReadMem = true;
	static bool const DebuggerWriteMem = true;
#		ifdef VERIF_CONFIG_SMALL
	static bool const AvoidDynamicMemory = true;
	static bool const UnalignedAccess = false;
	static int const DebuggerAlias = 2;
	static int const DebuggerMacro = 16;
	static int const DebuggerStreams = 1;
	static size_t const DebuggerStreamBuffer = 16;
	static size_t const DebuggerStreamBufferOverflow = 8;
	static bool const DebuggerTrace = true;
	static bool const CompressStreams = false;
#		endif
#		ifdef VERIF_CONFIG_DBG
	static int const DebuggerAlias = 2;
	static int const DebuggerMacro = 24;
	static int const DebuggerStreams = 2;
	static size_t const DebuggerStreamBuffer = 16;
	static bool const CompressStreams = false;
#		endif
#		ifdef VERIF_CONFIG_DBGC
	static bool const AvoidDynamicMemory = true;
	static int const DebuggerStreams = 3;
	static size_t const DebuggerStreamBuffer = 64;
	static size_t const DebuggerStreamBufferOverflow = 32;
	static bool const CompressStreams = true;
#		endif
#		ifdef VERIF_CONFIG_PLAIN
	static bool const CompressStreams = false;
#		endif
#		ifdef VERIF_CONFIG_BE
	static bool const StoreInLittleEndian = false;
#		endif
#		ifdef VERIF_CONFIG_RELEASE
	static bool const Debug = false;
	static bool const EnableAssert = false;
#		endif
};
} // namespace stored
#	endif
#endif
