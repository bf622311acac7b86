// pairwise covering list of policy combinations
{M_LT, T_RANGE, S_NONE, E_0, F_VAL, 2, 0},
{M_PRED, T_TWICE, S_NONE, E_A, F_ALL, 0, 0},
{M_EQ, T_DEF, S_NONE, E_AI, F_THROW, 1, 0},
{M_NE, T_ATLEAST, S_NONE, E_I, F_APPLY, 0, 0},
{M_ANY, T_ATMOST, S_NONE, E_IAL, F_CB, 0, 0},
{M_ANY, T_EXACT, S_NONE, E_A, F_ARG, 1, 0},
{M_EQ, T_ONCE, S_NONE, E_IAL, F_ALL, 2, 0},
{M_NE, T_TWICE, S_NONE, E_AI, F_CB, 2, 0},
{M_PRED, T_ATMOST, S_NONE, E_I, F_VAL, 1, 0},
{M_PRED, T_DEF, S_NONE, E_0, F_ARG, 2, 0},
{M_EQ, T_RANGE, S_NONE, E_AI, F_ARG, 0, 0},
{M_LT, T_ONCE, S_NONE, E_0, F_THROW, 0, 0},
{M_EQ, T_ATLEAST, S_NONE, E_A, F_THROW, 2, 0},
{M_LT, T_TWICE, S_NONE, E_IAL, F_APPLY, 1, 0},
{M_NE, T_RANGE, S_NONE, E_0, F_ALL, 1, 0},
{M_EQ, T_ATMOST, S_NONE, E_0, F_APPLY, 2, 0},
{M_NE, T_DEF, S_NONE, E_IAL, F_VAL, 0, 0},
{M_LT, T_ONCE, S_NONE, E_I, F_CB, 1, 0},
{M_ANY, T_RANGE, S_NONE, E_I, F_THROW, 2, 0},
{M_PRED, T_ATLEAST, S_NONE, E_0, F_CB, 1, 0},
{M_ANY, T_EXACT, S_NONE, E_AI, F_VAL, 2, 0},
{M_PRED, T_EXACT, S_NONE, E_IAL, F_THROW, 2, 0},
{M_NE, T_ONCE, S_NONE, E_A, F_APPLY, 0, 0},
{M_LT, T_DEF, S_NONE, E_A, F_CB, 1, 0},
{M_LT, T_ATMOST, S_NONE, E_AI, F_ARG, 1, 0},
{M_LT, T_EXACT, S_NONE, E_I, F_ALL, 0, 0},
{M_EQ, T_TWICE, S_NONE, E_I, F_VAL, 1, 0},
{M_ANY, T_ATLEAST, S_NONE, E_AI, F_ALL, 2, 0},
{M_PRED, T_RANGE, S_NONE, E_AI, F_APPLY, 1, 0},
{M_EQ, T_EXACT, S_NONE, E_0, F_CB, 2, 0},
{M_NE, T_DEF, S_NONE, E_I, F_ARG, 0, 0},
{M_PRED, T_ONCE, S_NONE, E_A, F_VAL, 1, 0},
{M_ANY, T_TWICE, S_NONE, E_0, F_ARG, 2, 0},
{M_ANY, T_ATLEAST, S_NONE, E_IAL, F_ARG, 1, 0},
{M_NE, T_ATMOST, S_NONE, E_AI, F_THROW, 1, 0},
{M_ANY, T_DEF, S_NONE, E_0, F_APPLY, 0, 0},
{M_ANY, T_ONCE, S_NONE, E_AI, F_ARG, 2, 0},
{M_PRED, T_ATMOST, S_NONE, E_A, F_ALL, 0, 0},
{M_PRED, T_RANGE, S_NONE, E_A, F_CB, 2, 0},
{M_LT, T_ATLEAST, S_NONE, E_AI, F_VAL, 1, 0},
{M_NE, T_EXACT, S_NONE, E_AI, F_APPLY, 2, 0},
{M_PRED, T_RANGE, S_NONE, E_IAL, F_APPLY, 0, 0},
{M_EQ, T_DEF, S_NONE, E_AI, F_ALL, 0, 0},
{M_LT, T_TWICE, S_NONE, E_A, F_THROW, 0, 0},
{M_ANY, T_RANGE, S_LL, E_A, F_CB, 2, 0},
{M_EQ, T_ATLEAST, S_LG, E_0, F_THROW, 2, 0},
{M_PRED, T_EXACT, S_LL, E_0, F_VAL, 1, 0},
{M_ANY, T_DEF, S_L, E_IAL, F_THROW, 1, 0},
{M_EQ, T_RANGE, S_GG, E_IAL, F_VAL, 0, 0},
{M_PRED, T_DEF, S_L_G, E_A, F_CB, 0, 0},
{M_EQ, T_TWICE, S_LG, E_A, F_CB, 1, 0},
{M_PRED, T_TWICE, S_LLL, E_IAL, F_VAL, 2, 0},
{M_ANY, T_TWICE, S_GG, E_0, F_THROW, 0, 0},
{M_ANY, T_ATLEAST, S_G, E_A, F_VAL, 1, 0},
{M_EQ, T_EXACT, S_L_L, E_A, F_THROW, 0, 0},
{M_PRED, T_ATLEAST, S_L_LG, E_IAL, F_CB, 0, 0},
{M_PRED, T_RANGE, S_L_G, E_0, F_THROW, 1, 0},
{M_EQ, T_DEF, S_L, E_0, F_CB, 2, 0},
{M_ANY, T_EXACT, S_L_L, E_IAL, F_CB, 2, 0},
{M_ANY, T_ATLEAST, S_LLL, E_0, F_THROW, 0, 0},
{M_PRED, T_DEF, S_LG, E_IAL, F_VAL, 0, 0},
{M_EQ, T_RANGE, S_L_LG, E_0, F_VAL, 2, 0},
{M_EQ, T_TWICE, S_G, E_IAL, F_THROW, 2, 0},
{M_ANY, T_EXACT, S_L_LG, E_A, F_THROW, 1, 0},
{M_PRED, T_ATLEAST, S_GG, E_A, F_CB, 1, 0},
{M_PRED, T_ATLEAST, S_L_L, E_0, F_VAL, 1, 0},
{M_PRED, T_TWICE, S_L, E_A, F_VAL, 0, 0},
{M_EQ, T_EXACT, S_LLL, E_A, F_CB, 1, 0},
{M_EQ, T_EXACT, S_L_G, E_IAL, F_VAL, 2, 0},
{M_EQ, T_DEF, S_LL, E_IAL, F_THROW, 1, 0},
{M_PRED, T_TWICE, S_G, E_0, F_CB, 1, 0},
{M_ANY, T_EXACT, S_LG, E_A, F_VAL, 0, 0},
{M_ANY, T_ATLEAST, S_LL, E_0, F_VAL, 0, 0},
{M_EQ, T_EXACT, S_G, E_IAL, F_VAL, 0, 0},
{M_ANY, T_TWICE, S_L_G, E_IAL, F_THROW, 1, 0},
{M_ANY, T_DEF, S_GG, E_A, F_THROW, 2, 0},
{M_PRED, T_DEF, S_LLL, E_0, F_THROW, 2, 0},
{M_PRED, T_DEF, S_L_L, E_A, F_VAL, 0, 0},
{M_PRED, T_TWICE, S_L_LG, E_A, F_VAL, 1, 0},
{M_EQ, T_RANGE, S_G, E_IAL, F_CB, 0, 0},
{M_PRED, T_ATLEAST, S_L_G, E_A, F_CB, 2, 0},
{M_PRED, T_TWICE, S_LL, E_IAL, F_VAL, 2, 0},
{M_PRED, T_RANGE, S_L, E_IAL, F_THROW, 1, 0},
{M_EQ, T_RANGE, S_LG, E_IAL, F_THROW, 1, 0},
{M_ANY, T_ATLEAST, S_L, E_0, F_VAL, 1, 0},
{M_EQ, T_EXACT, S_GG, E_A, F_VAL, 2, 0},
{M_PRED, T_EXACT, S_L, E_IAL, F_CB, 2, 0},
{M_PRED, T_RANGE, S_L_L, E_IAL, F_CB, 2, 0},
{M_PRED, T_DEF, S_G, E_IAL, F_CB, 1, 0},
{M_PRED, T_DEF, S_L_LG, E_IAL, F_THROW, 1, 0},
{M_PRED, T_RANGE, S_LLL, E_A, F_THROW, 1, 0},
{M_EQ, T_TWICE, S_L_L, E_IAL, F_CB, 0, 0}
