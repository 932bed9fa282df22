#include "eig_model.h"
extern "C" { SxEig3* sx_eig3_ptr = nullptr; SxEigMemo sx_eig_memo[8]; int sx_eig_memo_n = 0; }
