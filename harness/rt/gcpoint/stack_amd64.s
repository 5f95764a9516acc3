#include "textflag.h"

// func Stack() (lo, hi uintptr)
TEXT ·Stack(SB), NOSPLIT, $0-16
	MOVQ (TLS), AX
	MOVQ 0(AX), BX
	MOVQ BX, lo+0(FP)
	MOVQ 8(AX), BX
	MOVQ BX, hi+8(FP)
	RET
