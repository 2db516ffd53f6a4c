/* Generated by tools/gen_typed.py. */

GGC_TYPE(T0)
    GGC_MDATA(size_t, id);
    GGC_MPTR(Leaf, p0);
GGC_END_TYPE(T0,
    GGC_PTR(T0, p0)
    )
static void *new_T0(void) { return GGC_NEW(T0); }
static void setp_T0(void *o, int k, Leaf v) { T0 t = (T0) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T0(void *o, int k) { T0 t = (T0) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    default: return NULL; } }
static void setd_T0(void *o, uint64_t s) { T0 t = (T0) o; { size_t v = s; GGC_WD(t, id, v); }
}
static int chkd_T0(void *o, uint64_t s) { T0 t = (T0) o; if (GGC_RD(t, id) != s) return -1;
    return 0; }
static int zero_T0(void *o) { T0 t = (T0) o; if (GGC_RP(t, p0)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T0[] = { offsetof(struct T0__ggggc_struct, p0__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T1)
    GGC_MDATA(size_t, id);
    GGC_MDATA(double, d0);
    GGC_MPTR(Leaf, p0);
    GGC_MDATA(float, d1);
    GGC_MDATA(float, d2);
    GGC_MDATA(long, d3);
    GGC_MDATA(GGC_voidp, d4);
    GGC_MDATA(char, d5);
    GGC_MDATA(char, d6);
    GGC_MDATA(char, d7);
    GGC_MDATA(char, d8);
    GGC_MDATA(char, d9);
    GGC_MDATA(char, d10);
    GGC_MDATA(char, d11);
    GGC_MDATA(char, d12);
    GGC_MDATA(char, d13);
    GGC_MDATA(char, d14);
    GGC_MDATA(char, d15);
    GGC_MDATA(char, d16);
    GGC_MDATA(char, d17);
    GGC_MDATA(char, d18);
    GGC_MDATA(char, d19);
    GGC_MDATA(char, d20);
GGC_END_TYPE(T1,
    GGC_PTR(T1, p0)
    )
static void *new_T1(void) { return GGC_NEW(T1); }
static void setp_T1(void *o, int k, Leaf v) { T1 t = (T1) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T1(void *o, int k) { T1 t = (T1) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    default: return NULL; } }
static void setd_T1(void *o, uint64_t s) { T1 t = (T1) o; { size_t v = s; GGC_WD(t, id, v); }
    { double v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { float v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { float v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { long v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { char v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { char v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { char v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { char v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { char v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { char v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { char v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { char v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { char v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { char v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { char v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { char v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { char v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { char v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { char v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { char v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
}
static int chkd_T1(void *o, uint64_t s) { T1 t = (T1) o; if (GGC_RD(t, id) != s) return -1;
    { double v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { float v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { float v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { long v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { GGC_voidp v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { char v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { char v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { char v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { char v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { char v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { char v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { char v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { char v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { char v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { char v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { char v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { char v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { char v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { char v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { char v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { char v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    return 0; }
static int zero_T1(void *o) { T1 t = (T1) o; if (GGC_RP(t, p0)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T1[] = { offsetof(struct T1__ggggc_struct, p0__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T2)
    GGC_MDATA(size_t, id);
    GGC_MDATA(GGC_voidp, d0);
    GGC_MDATA(long, d1);
    GGC_MPTR(Leaf, p0);
GGC_END_TYPE(T2,
    GGC_PTR(T2, p0)
    )
static void *new_T2(void) { return GGC_NEW(T2); }
static void setp_T2(void *o, int k, Leaf v) { T2 t = (T2) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T2(void *o, int k) { T2 t = (T2) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    default: return NULL; } }
static void setd_T2(void *o, uint64_t s) { T2 t = (T2) o; { size_t v = s; GGC_WD(t, id, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { long v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
}
static int chkd_T2(void *o, uint64_t s) { T2 t = (T2) o; if (GGC_RD(t, id) != s) return -1;
    { GGC_voidp v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { long v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    return 0; }
static int zero_T2(void *o) { T2 t = (T2) o; if (GGC_RP(t, p0)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T2[] = { offsetof(struct T2__ggggc_struct, p0__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T3)
    GGC_MDATA(size_t, id);
    GGC_MDATA(long, d0);
    GGC_MDATA(GGC_voidp, d1);
    GGC_MDATA(Big17, d2);
    GGC_MDATA(size_t, d3);
    GGC_MDATA(size_t, d4);
    GGC_MDATA(int, d5);
    GGC_MDATA(int, d6);
    GGC_MDATA(long, d7);
    GGC_MDATA(size_t, d8);
    GGC_MDATA(double, d9);
    GGC_MDATA(float, d10);
    GGC_MDATA(float, d11);
    GGC_MPTR(Leaf, p0);
    GGC_MDATA(long, d12);
GGC_END_TYPE(T3,
    GGC_PTR(T3, p0)
    )
static void *new_T3(void) { return GGC_NEW(T3); }
static void setp_T3(void *o, int k, Leaf v) { T3 t = (T3) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T3(void *o, int k) { T3 t = (T3) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    default: return NULL; } }
static void setd_T3(void *o, uint64_t s) { T3 t = (T3) o; { size_t v = s; GGC_WD(t, id, v); }
    { long v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { Big17 v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { size_t v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { size_t v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { int v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { int v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { long v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { size_t v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { double v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { float v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { float v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { long v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
}
static int chkd_T3(void *o, uint64_t s) { T3 t = (T3) o; if (GGC_RD(t, id) != s) return -1;
    { long v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { GGC_voidp v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { Big17 v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { size_t v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { size_t v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { int v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { int v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { long v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { size_t v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { double v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { float v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { float v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { long v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    return 0; }
static int zero_T3(void *o) { T3 t = (T3) o; if (GGC_RP(t, p0)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T3[] = { offsetof(struct T3__ggggc_struct, p0__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T4)
    GGC_MDATA(size_t, id);
    GGC_MDATA(short, d0);
    GGC_MDATA(short, d1);
    GGC_MDATA(short, d2);
    GGC_MDATA(short, d3);
    GGC_MDATA(double, d4);
    GGC_MDATA(size_t, d5);
    GGC_MDATA(GGC_voidp, d6);
    GGC_MDATA(short, d7);
    GGC_MDATA(short, d8);
    GGC_MDATA(short, d9);
    GGC_MDATA(short, d10);
    GGC_MDATA(GGC_voidp, d11);
    GGC_MDATA(GGC_voidp, d12);
    GGC_MDATA(Big17, d13);
    GGC_MDATA(unsigned, d14);
    GGC_MDATA(unsigned, d15);
    GGC_MDATA(char, d16);
    GGC_MDATA(char, d17);
    GGC_MDATA(char, d18);
    GGC_MDATA(char, d19);
    GGC_MDATA(char, d20);
    GGC_MDATA(char, d21);
    GGC_MDATA(char, d22);
    GGC_MDATA(char, d23);
    GGC_MDATA(size_t, d24);
    GGC_MPTR(Leaf, p0);
    GGC_MDATA(char, d25);
    GGC_MDATA(char, d26);
    GGC_MDATA(char, d27);
    GGC_MDATA(char, d28);
    GGC_MDATA(char, d29);
    GGC_MDATA(char, d30);
    GGC_MDATA(char, d31);
    GGC_MDATA(char, d32);
GGC_END_TYPE(T4,
    GGC_PTR(T4, p0)
    )
static void *new_T4(void) { return GGC_NEW(T4); }
static void setp_T4(void *o, int k, Leaf v) { T4 t = (T4) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T4(void *o, int k) { T4 t = (T4) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    default: return NULL; } }
static void setd_T4(void *o, uint64_t s) { T4 t = (T4) o; { size_t v = s; GGC_WD(t, id, v); }
    { short v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { short v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { short v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { short v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { double v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { size_t v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { short v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { short v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { short v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { short v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { Big17 v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { unsigned v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { unsigned v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { char v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { char v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { char v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { char v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { char v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { char v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { char v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { char v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { size_t v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { char v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { char v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { char v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { char v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { char v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { char v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { char v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { char v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
}
static int chkd_T4(void *o, uint64_t s) { T4 t = (T4) o; if (GGC_RD(t, id) != s) return -1;
    { short v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { short v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { short v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { short v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { double v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { size_t v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { GGC_voidp v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { short v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { short v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { short v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { short v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { GGC_voidp v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { GGC_voidp v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { Big17 v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { unsigned v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { unsigned v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { char v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { char v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { char v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { char v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { char v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { char v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { char v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { char v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { size_t v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { char v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { char v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { char v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { char v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { char v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { char v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { char v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { char v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    return 0; }
static int zero_T4(void *o) { T4 t = (T4) o; if (GGC_RP(t, p0)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T4[] = { offsetof(struct T4__ggggc_struct, p0__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T5)
    GGC_MDATA(size_t, id);
    GGC_MDATA(Big3, d0);
    GGC_MDATA(double, d1);
    GGC_MDATA(short, d2);
    GGC_MDATA(short, d3);
    GGC_MDATA(short, d4);
    GGC_MDATA(short, d5);
    GGC_MDATA(float, d6);
    GGC_MDATA(float, d7);
    GGC_MDATA(GGC_voidp, d8);
    GGC_MDATA(Tri, d9);
    GGC_MDATA(Tri, d10);
    GGC_MDATA(short, d11);
    GGC_MDATA(double, d12);
    GGC_MDATA(long, d13);
    GGC_MDATA(long, d14);
    GGC_MDATA(Big17, d15);
    GGC_MPTR(Leaf, p0);
GGC_END_TYPE(T5,
    GGC_PTR(T5, p0)
    )
static void *new_T5(void) { return GGC_NEW(T5); }
static void setp_T5(void *o, int k, Leaf v) { T5 t = (T5) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T5(void *o, int k) { T5 t = (T5) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    default: return NULL; } }
static void setd_T5(void *o, uint64_t s) { T5 t = (T5) o; { size_t v = s; GGC_WD(t, id, v); }
    { Big3 v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { double v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { short v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { short v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { short v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { short v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { float v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { float v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { Tri v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { Tri v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { short v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { double v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { long v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { long v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { Big17 v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
}
static int chkd_T5(void *o, uint64_t s) { T5 t = (T5) o; if (GGC_RD(t, id) != s) return -1;
    { Big3 v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { double v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { short v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { short v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { short v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { short v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { float v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { float v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { GGC_voidp v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { Tri v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { Tri v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { short v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { double v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { long v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { long v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { Big17 v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    return 0; }
static int zero_T5(void *o) { T5 t = (T5) o; if (GGC_RP(t, p0)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T5[] = { offsetof(struct T5__ggggc_struct, p0__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T6)
    GGC_MDATA(size_t, id);
    GGC_MDATA(long, d0);
    GGC_MDATA(Tri, d1);
    GGC_MDATA(Tri, d2);
    GGC_MDATA(short, d3);
    GGC_MDATA(Big3, d4);
    GGC_MDATA(short, d5);
    GGC_MDATA(short, d6);
    GGC_MDATA(short, d7);
    GGC_MDATA(short, d8);
    GGC_MDATA(double, d9);
    GGC_MDATA(short, d10);
    GGC_MDATA(short, d11);
    GGC_MDATA(short, d12);
    GGC_MDATA(short, d13);
    GGC_MDATA(unsigned, d14);
    GGC_MDATA(unsigned, d15);
    GGC_MDATA(int, d16);
    GGC_MDATA(int, d17);
    GGC_MDATA(double, d18);
    GGC_MDATA(int, d19);
    GGC_MDATA(int, d20);
    GGC_MDATA(Big3, d21);
    GGC_MDATA(size_t, d22);
    GGC_MDATA(size_t, d23);
    GGC_MDATA(int, d24);
    GGC_MDATA(int, d25);
    GGC_MDATA(GGC_voidp, d26);
    GGC_MDATA(double, d27);
    GGC_MDATA(GGC_voidp, d28);
    GGC_MDATA(Big3, d29);
    GGC_MDATA(unsigned, d30);
    GGC_MDATA(unsigned, d31);
    GGC_MDATA(size_t, d32);
    GGC_MDATA(Big3, d33);
    GGC_MPTR(Leaf, p0);
    GGC_MDATA(long, d34);
GGC_END_TYPE(T6,
    GGC_PTR(T6, p0)
    )
static void *new_T6(void) { return GGC_NEW(T6); }
static void setp_T6(void *o, int k, Leaf v) { T6 t = (T6) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T6(void *o, int k) { T6 t = (T6) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    default: return NULL; } }
static void setd_T6(void *o, uint64_t s) { T6 t = (T6) o; { size_t v = s; GGC_WD(t, id, v); }
    { long v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { Tri v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { Tri v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { short v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { Big3 v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { short v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { short v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { short v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { short v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { double v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { short v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { short v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { short v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { short v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { unsigned v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { unsigned v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { int v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { int v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { double v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { int v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { int v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { Big3 v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { size_t v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { size_t v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { int v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { int v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { double v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { Big3 v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { unsigned v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { unsigned v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { size_t v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { Big3 v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { long v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
}
static int chkd_T6(void *o, uint64_t s) { T6 t = (T6) o; if (GGC_RD(t, id) != s) return -1;
    { long v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { Tri v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { Tri v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { short v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { Big3 v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { short v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { short v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { short v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { short v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { double v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { short v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { short v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { short v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { short v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { unsigned v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { unsigned v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { int v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { int v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { double v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { int v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { int v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { Big3 v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { size_t v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { size_t v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { int v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { int v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { GGC_voidp v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { double v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { GGC_voidp v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { Big3 v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { unsigned v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { unsigned v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { size_t v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { Big3 v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { long v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    return 0; }
static int zero_T6(void *o) { T6 t = (T6) o; if (GGC_RP(t, p0)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T6[] = { offsetof(struct T6__ggggc_struct, p0__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T7)
    GGC_MDATA(size_t, id);
    GGC_MDATA(Tri, d0);
    GGC_MDATA(Tri, d1);
    GGC_MDATA(short, d2);
    GGC_MDATA(double, d3);
    GGC_MDATA(unsigned, d4);
    GGC_MDATA(unsigned, d5);
    GGC_MDATA(char, d6);
    GGC_MDATA(char, d7);
    GGC_MDATA(char, d8);
    GGC_MDATA(char, d9);
    GGC_MDATA(char, d10);
    GGC_MDATA(char, d11);
    GGC_MDATA(char, d12);
    GGC_MDATA(char, d13);
    GGC_MDATA(unsigned, d14);
    GGC_MDATA(unsigned, d15);
    GGC_MDATA(size_t, d16);
    GGC_MDATA(Tri, d17);
    GGC_MDATA(Tri, d18);
    GGC_MDATA(short, d19);
    GGC_MDATA(Big17, d20);
    GGC_MDATA(GGC_voidp, d21);
    GGC_MDATA(GGC_voidp, d22);
    GGC_MDATA(size_t, d23);
    GGC_MDATA(char, d24);
    GGC_MDATA(char, d25);
    GGC_MDATA(char, d26);
    GGC_MDATA(char, d27);
    GGC_MDATA(char, d28);
    GGC_MDATA(char, d29);
    GGC_MDATA(char, d30);
    GGC_MDATA(char, d31);
    GGC_MDATA(float, d32);
    GGC_MDATA(float, d33);
    GGC_MDATA(Tri, d34);
    GGC_MDATA(Tri, d35);
    GGC_MDATA(short, d36);
    GGC_MPTR(Leaf, p0);
GGC_END_TYPE(T7,
    GGC_PTR(T7, p0)
    )
static void *new_T7(void) { return GGC_NEW(T7); }
static void setp_T7(void *o, int k, Leaf v) { T7 t = (T7) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T7(void *o, int k) { T7 t = (T7) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    default: return NULL; } }
static void setd_T7(void *o, uint64_t s) { T7 t = (T7) o; { size_t v = s; GGC_WD(t, id, v); }
    { Tri v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { Tri v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { short v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { double v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { unsigned v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { unsigned v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { char v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { char v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { char v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { char v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { char v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { char v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { char v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { char v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { unsigned v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { unsigned v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { size_t v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { Tri v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { Tri v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { short v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { Big17 v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { size_t v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { char v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { char v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { char v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { char v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { char v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { char v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { char v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { char v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { float v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { float v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { Tri v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { Tri v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { short v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
}
static int chkd_T7(void *o, uint64_t s) { T7 t = (T7) o; if (GGC_RD(t, id) != s) return -1;
    { Tri v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { Tri v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { short v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { double v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { unsigned v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { unsigned v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { char v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { char v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { char v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { char v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { char v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { char v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { char v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { char v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { unsigned v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { unsigned v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { size_t v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { Tri v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { Tri v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { short v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { Big17 v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { GGC_voidp v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { GGC_voidp v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { size_t v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { char v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { char v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { char v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { char v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { char v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { char v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { char v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { char v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { float v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { float v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { Tri v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { Tri v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { short v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    return 0; }
static int zero_T7(void *o) { T7 t = (T7) o; if (GGC_RP(t, p0)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T7[] = { offsetof(struct T7__ggggc_struct, p0__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T8)
    GGC_MDATA(size_t, id);
    GGC_MDATA(size_t, d0);
    GGC_MDATA(long, d1);
    GGC_MDATA(size_t, d2);
    GGC_MDATA(char, d3);
    GGC_MDATA(char, d4);
    GGC_MDATA(char, d5);
    GGC_MDATA(char, d6);
    GGC_MDATA(char, d7);
    GGC_MDATA(char, d8);
    GGC_MDATA(char, d9);
    GGC_MDATA(char, d10);
    GGC_MDATA(GGC_voidp, d11);
    GGC_MDATA(int, d12);
    GGC_MDATA(int, d13);
    GGC_MDATA(float, d14);
    GGC_MDATA(float, d15);
    GGC_MDATA(int, d16);
    GGC_MDATA(int, d17);
    GGC_MDATA(GGC_voidp, d18);
    GGC_MDATA(float, d19);
    GGC_MDATA(float, d20);
    GGC_MDATA(GGC_voidp, d21);
    GGC_MDATA(Big17, d22);
    GGC_MDATA(Big3, d23);
    GGC_MPTR(Leaf, p0);
    GGC_MDATA(short, d24);
    GGC_MDATA(short, d25);
    GGC_MDATA(short, d26);
    GGC_MDATA(short, d27);
    GGC_MDATA(long, d28);
    GGC_MDATA(float, d29);
    GGC_MDATA(float, d30);
    GGC_MDATA(unsigned, d31);
    GGC_MDATA(unsigned, d32);
    GGC_MDATA(unsigned, d33);
    GGC_MDATA(unsigned, d34);
GGC_END_TYPE(T8,
    GGC_PTR(T8, p0)
    )
static void *new_T8(void) { return GGC_NEW(T8); }
static void setp_T8(void *o, int k, Leaf v) { T8 t = (T8) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T8(void *o, int k) { T8 t = (T8) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    default: return NULL; } }
static void setd_T8(void *o, uint64_t s) { T8 t = (T8) o; { size_t v = s; GGC_WD(t, id, v); }
    { size_t v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { long v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { size_t v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { char v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { char v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { char v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { char v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { char v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { char v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { char v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { char v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { int v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { int v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { float v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { float v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { int v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { int v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { float v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { float v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { Big17 v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { Big3 v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { short v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { short v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { short v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { short v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { long v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { float v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { float v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { unsigned v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { unsigned v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { unsigned v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { unsigned v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
}
static int chkd_T8(void *o, uint64_t s) { T8 t = (T8) o; if (GGC_RD(t, id) != s) return -1;
    { size_t v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { long v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { size_t v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { char v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { char v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { char v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { char v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { char v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { char v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { char v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { char v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { GGC_voidp v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { int v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { int v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { float v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { float v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { int v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { int v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { GGC_voidp v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { float v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { float v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { GGC_voidp v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { Big17 v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { Big3 v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { short v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { short v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { short v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { short v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { long v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { float v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { float v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { unsigned v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { unsigned v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { unsigned v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { unsigned v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    return 0; }
static int zero_T8(void *o) { T8 t = (T8) o; if (GGC_RP(t, p0)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T8[] = { offsetof(struct T8__ggggc_struct, p0__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T9)
    GGC_MDATA(size_t, id);
    GGC_MDATA(size_t, d0);
    GGC_MDATA(size_t, d1);
    GGC_MDATA(GGC_voidp, d2);
    GGC_MDATA(Tri, d3);
    GGC_MDATA(Tri, d4);
    GGC_MDATA(short, d5);
    GGC_MDATA(Tri, d6);
    GGC_MDATA(Tri, d7);
    GGC_MDATA(short, d8);
    GGC_MDATA(long, d9);
    GGC_MDATA(double, d10);
    GGC_MDATA(int, d11);
    GGC_MDATA(int, d12);
    GGC_MDATA(long, d13);
    GGC_MDATA(char, d14);
    GGC_MDATA(char, d15);
    GGC_MDATA(char, d16);
    GGC_MDATA(char, d17);
    GGC_MDATA(char, d18);
    GGC_MDATA(char, d19);
    GGC_MDATA(char, d20);
    GGC_MDATA(char, d21);
    GGC_MDATA(size_t, d22);
    GGC_MDATA(GGC_voidp, d23);
    GGC_MDATA(float, d24);
    GGC_MDATA(float, d25);
    GGC_MDATA(long, d26);
    GGC_MDATA(Big17, d27);
    GGC_MDATA(double, d28);
    GGC_MPTR(Leaf, p0);
    GGC_MDATA(short, d29);
    GGC_MDATA(short, d30);
    GGC_MDATA(short, d31);
    GGC_MDATA(short, d32);
GGC_END_TYPE(T9,
    GGC_PTR(T9, p0)
    )
static void *new_T9(void) { return GGC_NEW(T9); }
static void setp_T9(void *o, int k, Leaf v) { T9 t = (T9) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T9(void *o, int k) { T9 t = (T9) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    default: return NULL; } }
static void setd_T9(void *o, uint64_t s) { T9 t = (T9) o; { size_t v = s; GGC_WD(t, id, v); }
    { size_t v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { size_t v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { Tri v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { Tri v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { short v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { Tri v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { Tri v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { short v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { long v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { double v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { int v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { int v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { long v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { char v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { char v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { char v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { char v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { char v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { char v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { char v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { char v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { size_t v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { float v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { float v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { long v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { Big17 v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { double v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { short v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { short v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { short v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { short v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
}
static int chkd_T9(void *o, uint64_t s) { T9 t = (T9) o; if (GGC_RD(t, id) != s) return -1;
    { size_t v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { size_t v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { GGC_voidp v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { Tri v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { Tri v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { short v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { Tri v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { Tri v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { short v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { long v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { double v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { int v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { int v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { long v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { char v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { char v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { char v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { char v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { char v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { char v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { char v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { char v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { size_t v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { GGC_voidp v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { float v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { float v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { long v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { Big17 v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { double v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { short v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { short v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { short v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { short v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    return 0; }
static int zero_T9(void *o) { T9 t = (T9) o; if (GGC_RP(t, p0)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T9[] = { offsetof(struct T9__ggggc_struct, p0__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T10)
    GGC_MDATA(size_t, id);
    GGC_MDATA(Big17, d0);
    GGC_MDATA(float, d1);
    GGC_MDATA(float, d2);
    GGC_MDATA(size_t, d3);
    GGC_MDATA(int, d4);
    GGC_MDATA(int, d5);
    GGC_MDATA(int, d6);
    GGC_MDATA(int, d7);
    GGC_MDATA(long, d8);
    GGC_MDATA(double, d9);
    GGC_MDATA(double, d10);
    GGC_MDATA(double, d11);
    GGC_MDATA(float, d12);
    GGC_MDATA(float, d13);
    GGC_MDATA(char, d14);
    GGC_MDATA(char, d15);
    GGC_MDATA(char, d16);
    GGC_MDATA(char, d17);
    GGC_MDATA(char, d18);
    GGC_MDATA(char, d19);
    GGC_MDATA(char, d20);
    GGC_MDATA(char, d21);
    GGC_MDATA(short, d22);
    GGC_MDATA(short, d23);
    GGC_MDATA(short, d24);
    GGC_MDATA(short, d25);
    GGC_MDATA(char, d26);
    GGC_MDATA(char, d27);
    GGC_MDATA(char, d28);
    GGC_MDATA(char, d29);
    GGC_MDATA(char, d30);
    GGC_MDATA(char, d31);
    GGC_MDATA(char, d32);
    GGC_MDATA(char, d33);
    GGC_MDATA(long, d34);
    GGC_MDATA(int, d35);
    GGC_MDATA(int, d36);
    GGC_MDATA(GGC_voidp, d37);
    GGC_MDATA(GGC_voidp, d38);
    GGC_MPTR(Leaf, p0);
    GGC_MDATA(long, d39);
GGC_END_TYPE(T10,
    GGC_PTR(T10, p0)
    )
static void *new_T10(void) { return GGC_NEW(T10); }
static void setp_T10(void *o, int k, Leaf v) { T10 t = (T10) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T10(void *o, int k) { T10 t = (T10) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    default: return NULL; } }
static void setd_T10(void *o, uint64_t s) { T10 t = (T10) o; { size_t v = s; GGC_WD(t, id, v); }
    { Big17 v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { float v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { float v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { size_t v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { int v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { int v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { int v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { int v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { long v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { double v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { double v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { double v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { float v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { float v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { char v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { char v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { char v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { char v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { char v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { char v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { char v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { char v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { short v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { short v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { short v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { short v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { char v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { char v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { char v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { char v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { char v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { char v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { char v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { char v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { long v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { int v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { int v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 37); GGC_WD(t, d37, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 38); GGC_WD(t, d38, v); }
    { long v; bits(&v, sizeof(v), s, 39); GGC_WD(t, d39, v); }
}
static int chkd_T10(void *o, uint64_t s) { T10 t = (T10) o; if (GGC_RD(t, id) != s) return -1;
    { Big17 v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { float v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { float v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { size_t v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { int v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { int v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { int v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { int v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { long v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { double v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { double v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { double v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { float v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { float v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { char v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { char v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { char v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { char v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { char v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { char v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { char v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { char v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { short v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { short v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { short v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { short v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { char v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { char v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { char v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { char v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { char v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { char v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { char v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { char v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { long v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { int v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { int v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    { GGC_voidp v = GGC_RD(t, d37); if (!same(&v, sizeof(v), s, 37)) return 38; }
    { GGC_voidp v = GGC_RD(t, d38); if (!same(&v, sizeof(v), s, 38)) return 39; }
    { long v = GGC_RD(t, d39); if (!same(&v, sizeof(v), s, 39)) return 40; }
    return 0; }
static int zero_T10(void *o) { T10 t = (T10) o; if (GGC_RP(t, p0)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T10[] = { offsetof(struct T10__ggggc_struct, p0__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T11)
    GGC_MDATA(size_t, id);
    GGC_MDATA(Big3, d0);
    GGC_MDATA(Big17, d1);
    GGC_MDATA(double, d2);
    GGC_MDATA(Big17, d3);
    GGC_MDATA(double, d4);
    GGC_MDATA(long, d5);
    GGC_MDATA(char, d6);
    GGC_MDATA(char, d7);
    GGC_MDATA(char, d8);
    GGC_MDATA(char, d9);
    GGC_MDATA(char, d10);
    GGC_MDATA(char, d11);
    GGC_MDATA(char, d12);
    GGC_MDATA(char, d13);
    GGC_MDATA(unsigned, d14);
    GGC_MDATA(unsigned, d15);
    GGC_MDATA(char, d16);
    GGC_MDATA(char, d17);
    GGC_MDATA(char, d18);
    GGC_MDATA(char, d19);
    GGC_MDATA(char, d20);
    GGC_MDATA(char, d21);
    GGC_MDATA(char, d22);
    GGC_MDATA(char, d23);
    GGC_MDATA(long, d24);
    GGC_MDATA(long, d25);
    GGC_MDATA(short, d26);
    GGC_MDATA(short, d27);
    GGC_MDATA(short, d28);
    GGC_MDATA(short, d29);
    GGC_MDATA(GGC_voidp, d30);
    GGC_MDATA(char, d31);
    GGC_MDATA(char, d32);
    GGC_MDATA(char, d33);
    GGC_MDATA(char, d34);
    GGC_MDATA(char, d35);
    GGC_MDATA(char, d36);
    GGC_MDATA(char, d37);
    GGC_MDATA(char, d38);
    GGC_MDATA(size_t, d39);
    GGC_MDATA(double, d40);
    GGC_MDATA(double, d41);
    GGC_MDATA(double, d42);
    GGC_MDATA(int, d43);
    GGC_MDATA(int, d44);
    GGC_MDATA(double, d45);
    GGC_MDATA(GGC_voidp, d46);
    GGC_MDATA(unsigned, d47);
    GGC_MDATA(unsigned, d48);
    GGC_MDATA(char, d49);
    GGC_MDATA(char, d50);
    GGC_MDATA(char, d51);
    GGC_MDATA(char, d52);
    GGC_MDATA(char, d53);
    GGC_MDATA(char, d54);
    GGC_MDATA(char, d55);
    GGC_MDATA(char, d56);
    GGC_MPTR(Leaf, p0);
    GGC_MDATA(long, d57);
GGC_END_TYPE(T11,
    GGC_PTR(T11, p0)
    )
static void *new_T11(void) { return GGC_NEW(T11); }
static void setp_T11(void *o, int k, Leaf v) { T11 t = (T11) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T11(void *o, int k) { T11 t = (T11) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    default: return NULL; } }
static void setd_T11(void *o, uint64_t s) { T11 t = (T11) o; { size_t v = s; GGC_WD(t, id, v); }
    { Big3 v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { Big17 v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { double v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { Big17 v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { double v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { long v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { char v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { char v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { char v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { char v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { char v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { char v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { char v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { char v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { unsigned v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { unsigned v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { char v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { char v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { char v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { char v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { char v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { char v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { char v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { char v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { long v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { long v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { short v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { short v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { short v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { short v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { char v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { char v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { char v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { char v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { char v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { char v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
    { char v; bits(&v, sizeof(v), s, 37); GGC_WD(t, d37, v); }
    { char v; bits(&v, sizeof(v), s, 38); GGC_WD(t, d38, v); }
    { size_t v; bits(&v, sizeof(v), s, 39); GGC_WD(t, d39, v); }
    { double v; bits(&v, sizeof(v), s, 40); GGC_WD(t, d40, v); }
    { double v; bits(&v, sizeof(v), s, 41); GGC_WD(t, d41, v); }
    { double v; bits(&v, sizeof(v), s, 42); GGC_WD(t, d42, v); }
    { int v; bits(&v, sizeof(v), s, 43); GGC_WD(t, d43, v); }
    { int v; bits(&v, sizeof(v), s, 44); GGC_WD(t, d44, v); }
    { double v; bits(&v, sizeof(v), s, 45); GGC_WD(t, d45, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 46); GGC_WD(t, d46, v); }
    { unsigned v; bits(&v, sizeof(v), s, 47); GGC_WD(t, d47, v); }
    { unsigned v; bits(&v, sizeof(v), s, 48); GGC_WD(t, d48, v); }
    { char v; bits(&v, sizeof(v), s, 49); GGC_WD(t, d49, v); }
    { char v; bits(&v, sizeof(v), s, 50); GGC_WD(t, d50, v); }
    { char v; bits(&v, sizeof(v), s, 51); GGC_WD(t, d51, v); }
    { char v; bits(&v, sizeof(v), s, 52); GGC_WD(t, d52, v); }
    { char v; bits(&v, sizeof(v), s, 53); GGC_WD(t, d53, v); }
    { char v; bits(&v, sizeof(v), s, 54); GGC_WD(t, d54, v); }
    { char v; bits(&v, sizeof(v), s, 55); GGC_WD(t, d55, v); }
    { char v; bits(&v, sizeof(v), s, 56); GGC_WD(t, d56, v); }
    { long v; bits(&v, sizeof(v), s, 57); GGC_WD(t, d57, v); }
}
static int chkd_T11(void *o, uint64_t s) { T11 t = (T11) o; if (GGC_RD(t, id) != s) return -1;
    { Big3 v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { Big17 v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { double v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { Big17 v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { double v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { long v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { char v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { char v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { char v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { char v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { char v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { char v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { char v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { char v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { unsigned v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { unsigned v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { char v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { char v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { char v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { char v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { char v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { char v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { char v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { char v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { long v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { long v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { short v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { short v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { short v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { short v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { GGC_voidp v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { char v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { char v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { char v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { char v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { char v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { char v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    { char v = GGC_RD(t, d37); if (!same(&v, sizeof(v), s, 37)) return 38; }
    { char v = GGC_RD(t, d38); if (!same(&v, sizeof(v), s, 38)) return 39; }
    { size_t v = GGC_RD(t, d39); if (!same(&v, sizeof(v), s, 39)) return 40; }
    { double v = GGC_RD(t, d40); if (!same(&v, sizeof(v), s, 40)) return 41; }
    { double v = GGC_RD(t, d41); if (!same(&v, sizeof(v), s, 41)) return 42; }
    { double v = GGC_RD(t, d42); if (!same(&v, sizeof(v), s, 42)) return 43; }
    { int v = GGC_RD(t, d43); if (!same(&v, sizeof(v), s, 43)) return 44; }
    { int v = GGC_RD(t, d44); if (!same(&v, sizeof(v), s, 44)) return 45; }
    { double v = GGC_RD(t, d45); if (!same(&v, sizeof(v), s, 45)) return 46; }
    { GGC_voidp v = GGC_RD(t, d46); if (!same(&v, sizeof(v), s, 46)) return 47; }
    { unsigned v = GGC_RD(t, d47); if (!same(&v, sizeof(v), s, 47)) return 48; }
    { unsigned v = GGC_RD(t, d48); if (!same(&v, sizeof(v), s, 48)) return 49; }
    { char v = GGC_RD(t, d49); if (!same(&v, sizeof(v), s, 49)) return 50; }
    { char v = GGC_RD(t, d50); if (!same(&v, sizeof(v), s, 50)) return 51; }
    { char v = GGC_RD(t, d51); if (!same(&v, sizeof(v), s, 51)) return 52; }
    { char v = GGC_RD(t, d52); if (!same(&v, sizeof(v), s, 52)) return 53; }
    { char v = GGC_RD(t, d53); if (!same(&v, sizeof(v), s, 53)) return 54; }
    { char v = GGC_RD(t, d54); if (!same(&v, sizeof(v), s, 54)) return 55; }
    { char v = GGC_RD(t, d55); if (!same(&v, sizeof(v), s, 55)) return 56; }
    { char v = GGC_RD(t, d56); if (!same(&v, sizeof(v), s, 56)) return 57; }
    { long v = GGC_RD(t, d57); if (!same(&v, sizeof(v), s, 57)) return 58; }
    return 0; }
static int zero_T11(void *o) { T11 t = (T11) o; if (GGC_RP(t, p0)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T11[] = { offsetof(struct T11__ggggc_struct, p0__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T12)
    GGC_MDATA(size_t, id);
    GGC_MDATA(GGC_voidp, d0);
    GGC_MDATA(unsigned, d1);
    GGC_MDATA(unsigned, d2);
    GGC_MDATA(int, d3);
    GGC_MDATA(int, d4);
    GGC_MDATA(int, d5);
    GGC_MDATA(int, d6);
    GGC_MDATA(float, d7);
    GGC_MDATA(float, d8);
    GGC_MDATA(Tri, d9);
    GGC_MDATA(Tri, d10);
    GGC_MDATA(short, d11);
    GGC_MDATA(double, d12);
    GGC_MDATA(unsigned, d13);
    GGC_MDATA(unsigned, d14);
    GGC_MDATA(char, d15);
    GGC_MDATA(char, d16);
    GGC_MDATA(char, d17);
    GGC_MDATA(char, d18);
    GGC_MDATA(char, d19);
    GGC_MDATA(char, d20);
    GGC_MDATA(char, d21);
    GGC_MDATA(char, d22);
    GGC_MDATA(float, d23);
    GGC_MDATA(float, d24);
    GGC_MDATA(long, d25);
    GGC_MDATA(long, d26);
    GGC_MDATA(size_t, d27);
    GGC_MDATA(GGC_voidp, d28);
    GGC_MDATA(GGC_voidp, d29);
    GGC_MDATA(short, d30);
    GGC_MDATA(short, d31);
    GGC_MDATA(short, d32);
    GGC_MDATA(short, d33);
    GGC_MDATA(GGC_voidp, d34);
    GGC_MDATA(GGC_voidp, d35);
    GGC_MDATA(unsigned, d36);
    GGC_MDATA(unsigned, d37);
    GGC_MDATA(Tri, d38);
    GGC_MDATA(Tri, d39);
    GGC_MDATA(short, d40);
    GGC_MDATA(unsigned, d41);
    GGC_MDATA(unsigned, d42);
    GGC_MDATA(double, d43);
    GGC_MDATA(size_t, d44);
    GGC_MDATA(double, d45);
    GGC_MDATA(Big3, d46);
    GGC_MDATA(Big3, d47);
    GGC_MDATA(Big3, d48);
    GGC_MDATA(long, d49);
    GGC_MDATA(Big3, d50);
    GGC_MDATA(char, d51);
    GGC_MDATA(char, d52);
    GGC_MDATA(char, d53);
    GGC_MDATA(char, d54);
    GGC_MDATA(char, d55);
    GGC_MDATA(char, d56);
    GGC_MDATA(char, d57);
    GGC_MDATA(char, d58);
    GGC_MDATA(int, d59);
    GGC_MDATA(int, d60);
    GGC_MDATA(size_t, d61);
    GGC_MDATA(Tri, d62);
    GGC_MDATA(Tri, d63);
    GGC_MDATA(short, d64);
    GGC_MDATA(short, d65);
    GGC_MDATA(short, d66);
    GGC_MDATA(short, d67);
    GGC_MDATA(short, d68);
    GGC_MDATA(Big3, d69);
    GGC_MDATA(int, d70);
    GGC_MDATA(int, d71);
    GGC_MDATA(double, d72);
    GGC_MDATA(double, d73);
    GGC_MDATA(short, d74);
    GGC_MDATA(short, d75);
    GGC_MDATA(short, d76);
    GGC_MDATA(short, d77);
    GGC_MDATA(Big3, d78);
    GGC_MDATA(size_t, d79);
    GGC_MDATA(size_t, d80);
    GGC_MDATA(size_t, d81);
    GGC_MDATA(double, d82);
    GGC_MDATA(int, d83);
    GGC_MDATA(int, d84);
    GGC_MDATA(GGC_voidp, d85);
    GGC_MPTR(Leaf, p0);
GGC_END_TYPE(T12,
    GGC_PTR(T12, p0)
    )
static void *new_T12(void) { return GGC_NEW(T12); }
static void setp_T12(void *o, int k, Leaf v) { T12 t = (T12) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T12(void *o, int k) { T12 t = (T12) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    default: return NULL; } }
static void setd_T12(void *o, uint64_t s) { T12 t = (T12) o; { size_t v = s; GGC_WD(t, id, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { unsigned v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { unsigned v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { int v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { int v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { int v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { int v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { float v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { float v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { Tri v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { Tri v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { short v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { double v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { unsigned v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { unsigned v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { char v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { char v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { char v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { char v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { char v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { char v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { char v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { char v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { float v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { float v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { long v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { long v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { size_t v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { short v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { short v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { short v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { short v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { unsigned v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
    { unsigned v; bits(&v, sizeof(v), s, 37); GGC_WD(t, d37, v); }
    { Tri v; bits(&v, sizeof(v), s, 38); GGC_WD(t, d38, v); }
    { Tri v; bits(&v, sizeof(v), s, 39); GGC_WD(t, d39, v); }
    { short v; bits(&v, sizeof(v), s, 40); GGC_WD(t, d40, v); }
    { unsigned v; bits(&v, sizeof(v), s, 41); GGC_WD(t, d41, v); }
    { unsigned v; bits(&v, sizeof(v), s, 42); GGC_WD(t, d42, v); }
    { double v; bits(&v, sizeof(v), s, 43); GGC_WD(t, d43, v); }
    { size_t v; bits(&v, sizeof(v), s, 44); GGC_WD(t, d44, v); }
    { double v; bits(&v, sizeof(v), s, 45); GGC_WD(t, d45, v); }
    { Big3 v; bits(&v, sizeof(v), s, 46); GGC_WD(t, d46, v); }
    { Big3 v; bits(&v, sizeof(v), s, 47); GGC_WD(t, d47, v); }
    { Big3 v; bits(&v, sizeof(v), s, 48); GGC_WD(t, d48, v); }
    { long v; bits(&v, sizeof(v), s, 49); GGC_WD(t, d49, v); }
    { Big3 v; bits(&v, sizeof(v), s, 50); GGC_WD(t, d50, v); }
    { char v; bits(&v, sizeof(v), s, 51); GGC_WD(t, d51, v); }
    { char v; bits(&v, sizeof(v), s, 52); GGC_WD(t, d52, v); }
    { char v; bits(&v, sizeof(v), s, 53); GGC_WD(t, d53, v); }
    { char v; bits(&v, sizeof(v), s, 54); GGC_WD(t, d54, v); }
    { char v; bits(&v, sizeof(v), s, 55); GGC_WD(t, d55, v); }
    { char v; bits(&v, sizeof(v), s, 56); GGC_WD(t, d56, v); }
    { char v; bits(&v, sizeof(v), s, 57); GGC_WD(t, d57, v); }
    { char v; bits(&v, sizeof(v), s, 58); GGC_WD(t, d58, v); }
    { int v; bits(&v, sizeof(v), s, 59); GGC_WD(t, d59, v); }
    { int v; bits(&v, sizeof(v), s, 60); GGC_WD(t, d60, v); }
    { size_t v; bits(&v, sizeof(v), s, 61); GGC_WD(t, d61, v); }
    { Tri v; bits(&v, sizeof(v), s, 62); GGC_WD(t, d62, v); }
    { Tri v; bits(&v, sizeof(v), s, 63); GGC_WD(t, d63, v); }
    { short v; bits(&v, sizeof(v), s, 64); GGC_WD(t, d64, v); }
    { short v; bits(&v, sizeof(v), s, 65); GGC_WD(t, d65, v); }
    { short v; bits(&v, sizeof(v), s, 66); GGC_WD(t, d66, v); }
    { short v; bits(&v, sizeof(v), s, 67); GGC_WD(t, d67, v); }
    { short v; bits(&v, sizeof(v), s, 68); GGC_WD(t, d68, v); }
    { Big3 v; bits(&v, sizeof(v), s, 69); GGC_WD(t, d69, v); }
    { int v; bits(&v, sizeof(v), s, 70); GGC_WD(t, d70, v); }
    { int v; bits(&v, sizeof(v), s, 71); GGC_WD(t, d71, v); }
    { double v; bits(&v, sizeof(v), s, 72); GGC_WD(t, d72, v); }
    { double v; bits(&v, sizeof(v), s, 73); GGC_WD(t, d73, v); }
    { short v; bits(&v, sizeof(v), s, 74); GGC_WD(t, d74, v); }
    { short v; bits(&v, sizeof(v), s, 75); GGC_WD(t, d75, v); }
    { short v; bits(&v, sizeof(v), s, 76); GGC_WD(t, d76, v); }
    { short v; bits(&v, sizeof(v), s, 77); GGC_WD(t, d77, v); }
    { Big3 v; bits(&v, sizeof(v), s, 78); GGC_WD(t, d78, v); }
    { size_t v; bits(&v, sizeof(v), s, 79); GGC_WD(t, d79, v); }
    { size_t v; bits(&v, sizeof(v), s, 80); GGC_WD(t, d80, v); }
    { size_t v; bits(&v, sizeof(v), s, 81); GGC_WD(t, d81, v); }
    { double v; bits(&v, sizeof(v), s, 82); GGC_WD(t, d82, v); }
    { int v; bits(&v, sizeof(v), s, 83); GGC_WD(t, d83, v); }
    { int v; bits(&v, sizeof(v), s, 84); GGC_WD(t, d84, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 85); GGC_WD(t, d85, v); }
}
static int chkd_T12(void *o, uint64_t s) { T12 t = (T12) o; if (GGC_RD(t, id) != s) return -1;
    { GGC_voidp v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { unsigned v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { unsigned v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { int v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { int v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { int v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { int v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { float v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { float v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { Tri v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { Tri v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { short v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { double v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { unsigned v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { unsigned v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { char v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { char v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { char v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { char v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { char v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { char v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { char v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { char v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { float v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { float v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { long v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { long v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { size_t v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { GGC_voidp v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { GGC_voidp v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { short v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { short v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { short v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { short v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { GGC_voidp v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { GGC_voidp v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { unsigned v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    { unsigned v = GGC_RD(t, d37); if (!same(&v, sizeof(v), s, 37)) return 38; }
    { Tri v = GGC_RD(t, d38); if (!same(&v, sizeof(v), s, 38)) return 39; }
    { Tri v = GGC_RD(t, d39); if (!same(&v, sizeof(v), s, 39)) return 40; }
    { short v = GGC_RD(t, d40); if (!same(&v, sizeof(v), s, 40)) return 41; }
    { unsigned v = GGC_RD(t, d41); if (!same(&v, sizeof(v), s, 41)) return 42; }
    { unsigned v = GGC_RD(t, d42); if (!same(&v, sizeof(v), s, 42)) return 43; }
    { double v = GGC_RD(t, d43); if (!same(&v, sizeof(v), s, 43)) return 44; }
    { size_t v = GGC_RD(t, d44); if (!same(&v, sizeof(v), s, 44)) return 45; }
    { double v = GGC_RD(t, d45); if (!same(&v, sizeof(v), s, 45)) return 46; }
    { Big3 v = GGC_RD(t, d46); if (!same(&v, sizeof(v), s, 46)) return 47; }
    { Big3 v = GGC_RD(t, d47); if (!same(&v, sizeof(v), s, 47)) return 48; }
    { Big3 v = GGC_RD(t, d48); if (!same(&v, sizeof(v), s, 48)) return 49; }
    { long v = GGC_RD(t, d49); if (!same(&v, sizeof(v), s, 49)) return 50; }
    { Big3 v = GGC_RD(t, d50); if (!same(&v, sizeof(v), s, 50)) return 51; }
    { char v = GGC_RD(t, d51); if (!same(&v, sizeof(v), s, 51)) return 52; }
    { char v = GGC_RD(t, d52); if (!same(&v, sizeof(v), s, 52)) return 53; }
    { char v = GGC_RD(t, d53); if (!same(&v, sizeof(v), s, 53)) return 54; }
    { char v = GGC_RD(t, d54); if (!same(&v, sizeof(v), s, 54)) return 55; }
    { char v = GGC_RD(t, d55); if (!same(&v, sizeof(v), s, 55)) return 56; }
    { char v = GGC_RD(t, d56); if (!same(&v, sizeof(v), s, 56)) return 57; }
    { char v = GGC_RD(t, d57); if (!same(&v, sizeof(v), s, 57)) return 58; }
    { char v = GGC_RD(t, d58); if (!same(&v, sizeof(v), s, 58)) return 59; }
    { int v = GGC_RD(t, d59); if (!same(&v, sizeof(v), s, 59)) return 60; }
    { int v = GGC_RD(t, d60); if (!same(&v, sizeof(v), s, 60)) return 61; }
    { size_t v = GGC_RD(t, d61); if (!same(&v, sizeof(v), s, 61)) return 62; }
    { Tri v = GGC_RD(t, d62); if (!same(&v, sizeof(v), s, 62)) return 63; }
    { Tri v = GGC_RD(t, d63); if (!same(&v, sizeof(v), s, 63)) return 64; }
    { short v = GGC_RD(t, d64); if (!same(&v, sizeof(v), s, 64)) return 65; }
    { short v = GGC_RD(t, d65); if (!same(&v, sizeof(v), s, 65)) return 66; }
    { short v = GGC_RD(t, d66); if (!same(&v, sizeof(v), s, 66)) return 67; }
    { short v = GGC_RD(t, d67); if (!same(&v, sizeof(v), s, 67)) return 68; }
    { short v = GGC_RD(t, d68); if (!same(&v, sizeof(v), s, 68)) return 69; }
    { Big3 v = GGC_RD(t, d69); if (!same(&v, sizeof(v), s, 69)) return 70; }
    { int v = GGC_RD(t, d70); if (!same(&v, sizeof(v), s, 70)) return 71; }
    { int v = GGC_RD(t, d71); if (!same(&v, sizeof(v), s, 71)) return 72; }
    { double v = GGC_RD(t, d72); if (!same(&v, sizeof(v), s, 72)) return 73; }
    { double v = GGC_RD(t, d73); if (!same(&v, sizeof(v), s, 73)) return 74; }
    { short v = GGC_RD(t, d74); if (!same(&v, sizeof(v), s, 74)) return 75; }
    { short v = GGC_RD(t, d75); if (!same(&v, sizeof(v), s, 75)) return 76; }
    { short v = GGC_RD(t, d76); if (!same(&v, sizeof(v), s, 76)) return 77; }
    { short v = GGC_RD(t, d77); if (!same(&v, sizeof(v), s, 77)) return 78; }
    { Big3 v = GGC_RD(t, d78); if (!same(&v, sizeof(v), s, 78)) return 79; }
    { size_t v = GGC_RD(t, d79); if (!same(&v, sizeof(v), s, 79)) return 80; }
    { size_t v = GGC_RD(t, d80); if (!same(&v, sizeof(v), s, 80)) return 81; }
    { size_t v = GGC_RD(t, d81); if (!same(&v, sizeof(v), s, 81)) return 82; }
    { double v = GGC_RD(t, d82); if (!same(&v, sizeof(v), s, 82)) return 83; }
    { int v = GGC_RD(t, d83); if (!same(&v, sizeof(v), s, 83)) return 84; }
    { int v = GGC_RD(t, d84); if (!same(&v, sizeof(v), s, 84)) return 85; }
    { GGC_voidp v = GGC_RD(t, d85); if (!same(&v, sizeof(v), s, 85)) return 86; }
    return 0; }
static int zero_T12(void *o) { T12 t = (T12) o; if (GGC_RP(t, p0)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T12[] = { offsetof(struct T12__ggggc_struct, p0__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T13)
    GGC_MDATA(size_t, id);
    GGC_MDATA(GGC_voidp, d0);
    GGC_MDATA(int, d1);
    GGC_MDATA(int, d2);
    GGC_MDATA(float, d3);
    GGC_MDATA(float, d4);
    GGC_MDATA(long, d5);
    GGC_MDATA(size_t, d6);
    GGC_MDATA(unsigned, d7);
    GGC_MDATA(unsigned, d8);
    GGC_MDATA(long, d9);
    GGC_MDATA(long, d10);
    GGC_MDATA(GGC_voidp, d11);
    GGC_MDATA(short, d12);
    GGC_MDATA(short, d13);
    GGC_MDATA(short, d14);
    GGC_MDATA(short, d15);
    GGC_MDATA(size_t, d16);
    GGC_MDATA(short, d17);
    GGC_MDATA(short, d18);
    GGC_MDATA(short, d19);
    GGC_MDATA(short, d20);
    GGC_MDATA(float, d21);
    GGC_MDATA(float, d22);
    GGC_MDATA(Tri, d23);
    GGC_MDATA(Tri, d24);
    GGC_MDATA(short, d25);
    GGC_MDATA(Tri, d26);
    GGC_MDATA(Tri, d27);
    GGC_MDATA(short, d28);
    GGC_MDATA(GGC_voidp, d29);
    GGC_MDATA(int, d30);
    GGC_MDATA(int, d31);
    GGC_MDATA(float, d32);
    GGC_MDATA(float, d33);
    GGC_MDATA(unsigned, d34);
    GGC_MDATA(unsigned, d35);
    GGC_MDATA(Big17, d36);
    GGC_MDATA(int, d37);
    GGC_MDATA(int, d38);
    GGC_MDATA(float, d39);
    GGC_MDATA(float, d40);
    GGC_MDATA(size_t, d41);
    GGC_MDATA(Big3, d42);
    GGC_MDATA(Tri, d43);
    GGC_MDATA(Tri, d44);
    GGC_MDATA(short, d45);
    GGC_MDATA(double, d46);
    GGC_MDATA(GGC_voidp, d47);
    GGC_MDATA(long, d48);
    GGC_MDATA(Big3, d49);
    GGC_MDATA(float, d50);
    GGC_MDATA(float, d51);
    GGC_MDATA(Big3, d52);
    GGC_MDATA(char, d53);
    GGC_MDATA(char, d54);
    GGC_MDATA(char, d55);
    GGC_MDATA(char, d56);
    GGC_MDATA(char, d57);
    GGC_MDATA(char, d58);
    GGC_MDATA(char, d59);
    GGC_MDATA(char, d60);
    GGC_MDATA(Big3, d61);
    GGC_MDATA(GGC_voidp, d62);
    GGC_MDATA(double, d63);
    GGC_MPTR(Leaf, p0);
GGC_END_TYPE(T13,
    GGC_PTR(T13, p0)
    )
static void *new_T13(void) { return GGC_NEW(T13); }
static void setp_T13(void *o, int k, Leaf v) { T13 t = (T13) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T13(void *o, int k) { T13 t = (T13) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    default: return NULL; } }
static void setd_T13(void *o, uint64_t s) { T13 t = (T13) o; { size_t v = s; GGC_WD(t, id, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { int v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { int v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { float v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { float v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { long v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { size_t v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { unsigned v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { unsigned v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { long v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { long v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { short v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { short v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { short v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { short v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { size_t v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { short v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { short v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { short v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { short v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { float v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { float v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { Tri v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { Tri v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { short v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { Tri v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { Tri v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { short v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { int v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { int v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { float v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { float v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { unsigned v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { unsigned v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { Big17 v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
    { int v; bits(&v, sizeof(v), s, 37); GGC_WD(t, d37, v); }
    { int v; bits(&v, sizeof(v), s, 38); GGC_WD(t, d38, v); }
    { float v; bits(&v, sizeof(v), s, 39); GGC_WD(t, d39, v); }
    { float v; bits(&v, sizeof(v), s, 40); GGC_WD(t, d40, v); }
    { size_t v; bits(&v, sizeof(v), s, 41); GGC_WD(t, d41, v); }
    { Big3 v; bits(&v, sizeof(v), s, 42); GGC_WD(t, d42, v); }
    { Tri v; bits(&v, sizeof(v), s, 43); GGC_WD(t, d43, v); }
    { Tri v; bits(&v, sizeof(v), s, 44); GGC_WD(t, d44, v); }
    { short v; bits(&v, sizeof(v), s, 45); GGC_WD(t, d45, v); }
    { double v; bits(&v, sizeof(v), s, 46); GGC_WD(t, d46, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 47); GGC_WD(t, d47, v); }
    { long v; bits(&v, sizeof(v), s, 48); GGC_WD(t, d48, v); }
    { Big3 v; bits(&v, sizeof(v), s, 49); GGC_WD(t, d49, v); }
    { float v; bits(&v, sizeof(v), s, 50); GGC_WD(t, d50, v); }
    { float v; bits(&v, sizeof(v), s, 51); GGC_WD(t, d51, v); }
    { Big3 v; bits(&v, sizeof(v), s, 52); GGC_WD(t, d52, v); }
    { char v; bits(&v, sizeof(v), s, 53); GGC_WD(t, d53, v); }
    { char v; bits(&v, sizeof(v), s, 54); GGC_WD(t, d54, v); }
    { char v; bits(&v, sizeof(v), s, 55); GGC_WD(t, d55, v); }
    { char v; bits(&v, sizeof(v), s, 56); GGC_WD(t, d56, v); }
    { char v; bits(&v, sizeof(v), s, 57); GGC_WD(t, d57, v); }
    { char v; bits(&v, sizeof(v), s, 58); GGC_WD(t, d58, v); }
    { char v; bits(&v, sizeof(v), s, 59); GGC_WD(t, d59, v); }
    { char v; bits(&v, sizeof(v), s, 60); GGC_WD(t, d60, v); }
    { Big3 v; bits(&v, sizeof(v), s, 61); GGC_WD(t, d61, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 62); GGC_WD(t, d62, v); }
    { double v; bits(&v, sizeof(v), s, 63); GGC_WD(t, d63, v); }
}
static int chkd_T13(void *o, uint64_t s) { T13 t = (T13) o; if (GGC_RD(t, id) != s) return -1;
    { GGC_voidp v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { int v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { int v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { float v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { float v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { long v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { size_t v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { unsigned v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { unsigned v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { long v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { long v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { GGC_voidp v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { short v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { short v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { short v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { short v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { size_t v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { short v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { short v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { short v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { short v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { float v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { float v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { Tri v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { Tri v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { short v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { Tri v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { Tri v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { short v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { GGC_voidp v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { int v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { int v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { float v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { float v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { unsigned v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { unsigned v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { Big17 v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    { int v = GGC_RD(t, d37); if (!same(&v, sizeof(v), s, 37)) return 38; }
    { int v = GGC_RD(t, d38); if (!same(&v, sizeof(v), s, 38)) return 39; }
    { float v = GGC_RD(t, d39); if (!same(&v, sizeof(v), s, 39)) return 40; }
    { float v = GGC_RD(t, d40); if (!same(&v, sizeof(v), s, 40)) return 41; }
    { size_t v = GGC_RD(t, d41); if (!same(&v, sizeof(v), s, 41)) return 42; }
    { Big3 v = GGC_RD(t, d42); if (!same(&v, sizeof(v), s, 42)) return 43; }
    { Tri v = GGC_RD(t, d43); if (!same(&v, sizeof(v), s, 43)) return 44; }
    { Tri v = GGC_RD(t, d44); if (!same(&v, sizeof(v), s, 44)) return 45; }
    { short v = GGC_RD(t, d45); if (!same(&v, sizeof(v), s, 45)) return 46; }
    { double v = GGC_RD(t, d46); if (!same(&v, sizeof(v), s, 46)) return 47; }
    { GGC_voidp v = GGC_RD(t, d47); if (!same(&v, sizeof(v), s, 47)) return 48; }
    { long v = GGC_RD(t, d48); if (!same(&v, sizeof(v), s, 48)) return 49; }
    { Big3 v = GGC_RD(t, d49); if (!same(&v, sizeof(v), s, 49)) return 50; }
    { float v = GGC_RD(t, d50); if (!same(&v, sizeof(v), s, 50)) return 51; }
    { float v = GGC_RD(t, d51); if (!same(&v, sizeof(v), s, 51)) return 52; }
    { Big3 v = GGC_RD(t, d52); if (!same(&v, sizeof(v), s, 52)) return 53; }
    { char v = GGC_RD(t, d53); if (!same(&v, sizeof(v), s, 53)) return 54; }
    { char v = GGC_RD(t, d54); if (!same(&v, sizeof(v), s, 54)) return 55; }
    { char v = GGC_RD(t, d55); if (!same(&v, sizeof(v), s, 55)) return 56; }
    { char v = GGC_RD(t, d56); if (!same(&v, sizeof(v), s, 56)) return 57; }
    { char v = GGC_RD(t, d57); if (!same(&v, sizeof(v), s, 57)) return 58; }
    { char v = GGC_RD(t, d58); if (!same(&v, sizeof(v), s, 58)) return 59; }
    { char v = GGC_RD(t, d59); if (!same(&v, sizeof(v), s, 59)) return 60; }
    { char v = GGC_RD(t, d60); if (!same(&v, sizeof(v), s, 60)) return 61; }
    { Big3 v = GGC_RD(t, d61); if (!same(&v, sizeof(v), s, 61)) return 62; }
    { GGC_voidp v = GGC_RD(t, d62); if (!same(&v, sizeof(v), s, 62)) return 63; }
    { double v = GGC_RD(t, d63); if (!same(&v, sizeof(v), s, 63)) return 64; }
    return 0; }
static int zero_T13(void *o) { T13 t = (T13) o; if (GGC_RP(t, p0)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T13[] = { offsetof(struct T13__ggggc_struct, p0__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T14)
    GGC_MDATA(size_t, id);
    GGC_MDATA(short, d0);
    GGC_MDATA(short, d1);
    GGC_MDATA(short, d2);
    GGC_MDATA(short, d3);
    GGC_MDATA(Tri, d4);
    GGC_MDATA(Tri, d5);
    GGC_MDATA(short, d6);
    GGC_MDATA(GGC_voidp, d7);
    GGC_MDATA(int, d8);
    GGC_MDATA(int, d9);
    GGC_MDATA(Tri, d10);
    GGC_MDATA(Tri, d11);
    GGC_MDATA(short, d12);
    GGC_MDATA(double, d13);
    GGC_MDATA(size_t, d14);
    GGC_MDATA(int, d15);
    GGC_MDATA(int, d16);
    GGC_MDATA(long, d17);
    GGC_MDATA(double, d18);
    GGC_MDATA(Tri, d19);
    GGC_MDATA(Tri, d20);
    GGC_MDATA(short, d21);
    GGC_MDATA(Big17, d22);
    GGC_MDATA(Tri, d23);
    GGC_MDATA(Tri, d24);
    GGC_MDATA(short, d25);
    GGC_MDATA(unsigned, d26);
    GGC_MDATA(unsigned, d27);
    GGC_MDATA(unsigned, d28);
    GGC_MDATA(unsigned, d29);
    GGC_MDATA(size_t, d30);
    GGC_MDATA(GGC_voidp, d31);
    GGC_MDATA(double, d32);
    GGC_MDATA(float, d33);
    GGC_MDATA(float, d34);
    GGC_MDATA(double, d35);
    GGC_MDATA(char, d36);
    GGC_MDATA(char, d37);
    GGC_MDATA(char, d38);
    GGC_MDATA(char, d39);
    GGC_MDATA(char, d40);
    GGC_MDATA(char, d41);
    GGC_MDATA(char, d42);
    GGC_MDATA(char, d43);
    GGC_MDATA(long, d44);
    GGC_MDATA(Big3, d45);
    GGC_MDATA(Big3, d46);
    GGC_MDATA(double, d47);
    GGC_MDATA(long, d48);
    GGC_MDATA(double, d49);
    GGC_MDATA(char, d50);
    GGC_MDATA(char, d51);
    GGC_MDATA(char, d52);
    GGC_MDATA(char, d53);
    GGC_MDATA(char, d54);
    GGC_MDATA(char, d55);
    GGC_MDATA(char, d56);
    GGC_MDATA(char, d57);
    GGC_MDATA(int, d58);
    GGC_MDATA(int, d59);
    GGC_MDATA(short, d60);
    GGC_MDATA(short, d61);
    GGC_MDATA(short, d62);
    GGC_MDATA(short, d63);
    GGC_MDATA(long, d64);
    GGC_MDATA(float, d65);
    GGC_MDATA(float, d66);
    GGC_MDATA(Big3, d67);
    GGC_MDATA(double, d68);
    GGC_MDATA(Tri, d69);
    GGC_MDATA(Tri, d70);
    GGC_MDATA(short, d71);
    GGC_MDATA(double, d72);
    GGC_MDATA(long, d73);
    GGC_MDATA(unsigned, d74);
    GGC_MDATA(unsigned, d75);
    GGC_MPTR(Leaf, p0);
GGC_END_TYPE(T14,
    GGC_PTR(T14, p0)
    )
static void *new_T14(void) { return GGC_NEW(T14); }
static void setp_T14(void *o, int k, Leaf v) { T14 t = (T14) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T14(void *o, int k) { T14 t = (T14) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    default: return NULL; } }
static void setd_T14(void *o, uint64_t s) { T14 t = (T14) o; { size_t v = s; GGC_WD(t, id, v); }
    { short v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { short v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { short v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { short v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { Tri v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { Tri v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { short v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { int v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { int v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { Tri v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { Tri v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { short v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { double v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { size_t v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { int v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { int v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { long v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { double v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { Tri v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { Tri v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { short v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { Big17 v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { Tri v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { Tri v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { short v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { unsigned v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { unsigned v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { unsigned v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { unsigned v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { size_t v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { double v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { float v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { float v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { double v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { char v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
    { char v; bits(&v, sizeof(v), s, 37); GGC_WD(t, d37, v); }
    { char v; bits(&v, sizeof(v), s, 38); GGC_WD(t, d38, v); }
    { char v; bits(&v, sizeof(v), s, 39); GGC_WD(t, d39, v); }
    { char v; bits(&v, sizeof(v), s, 40); GGC_WD(t, d40, v); }
    { char v; bits(&v, sizeof(v), s, 41); GGC_WD(t, d41, v); }
    { char v; bits(&v, sizeof(v), s, 42); GGC_WD(t, d42, v); }
    { char v; bits(&v, sizeof(v), s, 43); GGC_WD(t, d43, v); }
    { long v; bits(&v, sizeof(v), s, 44); GGC_WD(t, d44, v); }
    { Big3 v; bits(&v, sizeof(v), s, 45); GGC_WD(t, d45, v); }
    { Big3 v; bits(&v, sizeof(v), s, 46); GGC_WD(t, d46, v); }
    { double v; bits(&v, sizeof(v), s, 47); GGC_WD(t, d47, v); }
    { long v; bits(&v, sizeof(v), s, 48); GGC_WD(t, d48, v); }
    { double v; bits(&v, sizeof(v), s, 49); GGC_WD(t, d49, v); }
    { char v; bits(&v, sizeof(v), s, 50); GGC_WD(t, d50, v); }
    { char v; bits(&v, sizeof(v), s, 51); GGC_WD(t, d51, v); }
    { char v; bits(&v, sizeof(v), s, 52); GGC_WD(t, d52, v); }
    { char v; bits(&v, sizeof(v), s, 53); GGC_WD(t, d53, v); }
    { char v; bits(&v, sizeof(v), s, 54); GGC_WD(t, d54, v); }
    { char v; bits(&v, sizeof(v), s, 55); GGC_WD(t, d55, v); }
    { char v; bits(&v, sizeof(v), s, 56); GGC_WD(t, d56, v); }
    { char v; bits(&v, sizeof(v), s, 57); GGC_WD(t, d57, v); }
    { int v; bits(&v, sizeof(v), s, 58); GGC_WD(t, d58, v); }
    { int v; bits(&v, sizeof(v), s, 59); GGC_WD(t, d59, v); }
    { short v; bits(&v, sizeof(v), s, 60); GGC_WD(t, d60, v); }
    { short v; bits(&v, sizeof(v), s, 61); GGC_WD(t, d61, v); }
    { short v; bits(&v, sizeof(v), s, 62); GGC_WD(t, d62, v); }
    { short v; bits(&v, sizeof(v), s, 63); GGC_WD(t, d63, v); }
    { long v; bits(&v, sizeof(v), s, 64); GGC_WD(t, d64, v); }
    { float v; bits(&v, sizeof(v), s, 65); GGC_WD(t, d65, v); }
    { float v; bits(&v, sizeof(v), s, 66); GGC_WD(t, d66, v); }
    { Big3 v; bits(&v, sizeof(v), s, 67); GGC_WD(t, d67, v); }
    { double v; bits(&v, sizeof(v), s, 68); GGC_WD(t, d68, v); }
    { Tri v; bits(&v, sizeof(v), s, 69); GGC_WD(t, d69, v); }
    { Tri v; bits(&v, sizeof(v), s, 70); GGC_WD(t, d70, v); }
    { short v; bits(&v, sizeof(v), s, 71); GGC_WD(t, d71, v); }
    { double v; bits(&v, sizeof(v), s, 72); GGC_WD(t, d72, v); }
    { long v; bits(&v, sizeof(v), s, 73); GGC_WD(t, d73, v); }
    { unsigned v; bits(&v, sizeof(v), s, 74); GGC_WD(t, d74, v); }
    { unsigned v; bits(&v, sizeof(v), s, 75); GGC_WD(t, d75, v); }
}
static int chkd_T14(void *o, uint64_t s) { T14 t = (T14) o; if (GGC_RD(t, id) != s) return -1;
    { short v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { short v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { short v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { short v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { Tri v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { Tri v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { short v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { GGC_voidp v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { int v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { int v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { Tri v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { Tri v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { short v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { double v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { size_t v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { int v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { int v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { long v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { double v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { Tri v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { Tri v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { short v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { Big17 v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { Tri v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { Tri v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { short v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { unsigned v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { unsigned v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { unsigned v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { unsigned v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { size_t v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { GGC_voidp v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { double v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { float v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { float v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { double v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { char v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    { char v = GGC_RD(t, d37); if (!same(&v, sizeof(v), s, 37)) return 38; }
    { char v = GGC_RD(t, d38); if (!same(&v, sizeof(v), s, 38)) return 39; }
    { char v = GGC_RD(t, d39); if (!same(&v, sizeof(v), s, 39)) return 40; }
    { char v = GGC_RD(t, d40); if (!same(&v, sizeof(v), s, 40)) return 41; }
    { char v = GGC_RD(t, d41); if (!same(&v, sizeof(v), s, 41)) return 42; }
    { char v = GGC_RD(t, d42); if (!same(&v, sizeof(v), s, 42)) return 43; }
    { char v = GGC_RD(t, d43); if (!same(&v, sizeof(v), s, 43)) return 44; }
    { long v = GGC_RD(t, d44); if (!same(&v, sizeof(v), s, 44)) return 45; }
    { Big3 v = GGC_RD(t, d45); if (!same(&v, sizeof(v), s, 45)) return 46; }
    { Big3 v = GGC_RD(t, d46); if (!same(&v, sizeof(v), s, 46)) return 47; }
    { double v = GGC_RD(t, d47); if (!same(&v, sizeof(v), s, 47)) return 48; }
    { long v = GGC_RD(t, d48); if (!same(&v, sizeof(v), s, 48)) return 49; }
    { double v = GGC_RD(t, d49); if (!same(&v, sizeof(v), s, 49)) return 50; }
    { char v = GGC_RD(t, d50); if (!same(&v, sizeof(v), s, 50)) return 51; }
    { char v = GGC_RD(t, d51); if (!same(&v, sizeof(v), s, 51)) return 52; }
    { char v = GGC_RD(t, d52); if (!same(&v, sizeof(v), s, 52)) return 53; }
    { char v = GGC_RD(t, d53); if (!same(&v, sizeof(v), s, 53)) return 54; }
    { char v = GGC_RD(t, d54); if (!same(&v, sizeof(v), s, 54)) return 55; }
    { char v = GGC_RD(t, d55); if (!same(&v, sizeof(v), s, 55)) return 56; }
    { char v = GGC_RD(t, d56); if (!same(&v, sizeof(v), s, 56)) return 57; }
    { char v = GGC_RD(t, d57); if (!same(&v, sizeof(v), s, 57)) return 58; }
    { int v = GGC_RD(t, d58); if (!same(&v, sizeof(v), s, 58)) return 59; }
    { int v = GGC_RD(t, d59); if (!same(&v, sizeof(v), s, 59)) return 60; }
    { short v = GGC_RD(t, d60); if (!same(&v, sizeof(v), s, 60)) return 61; }
    { short v = GGC_RD(t, d61); if (!same(&v, sizeof(v), s, 61)) return 62; }
    { short v = GGC_RD(t, d62); if (!same(&v, sizeof(v), s, 62)) return 63; }
    { short v = GGC_RD(t, d63); if (!same(&v, sizeof(v), s, 63)) return 64; }
    { long v = GGC_RD(t, d64); if (!same(&v, sizeof(v), s, 64)) return 65; }
    { float v = GGC_RD(t, d65); if (!same(&v, sizeof(v), s, 65)) return 66; }
    { float v = GGC_RD(t, d66); if (!same(&v, sizeof(v), s, 66)) return 67; }
    { Big3 v = GGC_RD(t, d67); if (!same(&v, sizeof(v), s, 67)) return 68; }
    { double v = GGC_RD(t, d68); if (!same(&v, sizeof(v), s, 68)) return 69; }
    { Tri v = GGC_RD(t, d69); if (!same(&v, sizeof(v), s, 69)) return 70; }
    { Tri v = GGC_RD(t, d70); if (!same(&v, sizeof(v), s, 70)) return 71; }
    { short v = GGC_RD(t, d71); if (!same(&v, sizeof(v), s, 71)) return 72; }
    { double v = GGC_RD(t, d72); if (!same(&v, sizeof(v), s, 72)) return 73; }
    { long v = GGC_RD(t, d73); if (!same(&v, sizeof(v), s, 73)) return 74; }
    { unsigned v = GGC_RD(t, d74); if (!same(&v, sizeof(v), s, 74)) return 75; }
    { unsigned v = GGC_RD(t, d75); if (!same(&v, sizeof(v), s, 75)) return 76; }
    return 0; }
static int zero_T14(void *o) { T14 t = (T14) o; if (GGC_RP(t, p0)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T14[] = { offsetof(struct T14__ggggc_struct, p0__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T15)
    GGC_MDATA(size_t, id);
GGC_END_TYPE(T15,
    GGC_NO_PTRS
    )
static void *new_T15(void) { return GGC_NEW(T15); }
static void setp_T15(void *o, int k, Leaf v) { T15 t = (T15) o; (void) t; (void) v; switch (k) {
    default: vh_bug("member"); } }
static Leaf getp_T15(void *o, int k) { T15 t = (T15) o; (void) t; switch (k) {
    default: return NULL; } }
static void setd_T15(void *o, uint64_t s) { T15 t = (T15) o; { size_t v = s; GGC_WD(t, id, v); }
}
static int chkd_T15(void *o, uint64_t s) { T15 t = (T15) o; if (GGC_RD(t, id) != s) return -1;
    return 0; }
static int zero_T15(void *o) { T15 t = (T15) o;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T15[] = { 0 };

GGC_TYPE(T16)
    GGC_MDATA(size_t, id);
    GGC_MDATA(size_t, d0);
GGC_END_TYPE(T16,
    GGC_NO_PTRS
    )
static void *new_T16(void) { return GGC_NEW(T16); }
static void setp_T16(void *o, int k, Leaf v) { T16 t = (T16) o; (void) t; (void) v; switch (k) {
    default: vh_bug("member"); } }
static Leaf getp_T16(void *o, int k) { T16 t = (T16) o; (void) t; switch (k) {
    default: return NULL; } }
static void setd_T16(void *o, uint64_t s) { T16 t = (T16) o; { size_t v = s; GGC_WD(t, id, v); }
    { size_t v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
}
static int chkd_T16(void *o, uint64_t s) { T16 t = (T16) o; if (GGC_RD(t, id) != s) return -1;
    { size_t v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    return 0; }
static int zero_T16(void *o) { T16 t = (T16) o;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T16[] = { 0 };

GGC_TYPE(T17)
    GGC_MDATA(size_t, id);
    GGC_MDATA(GGC_voidp, d0);
    GGC_MDATA(double, d1);
GGC_END_TYPE(T17,
    GGC_NO_PTRS
    )
static void *new_T17(void) { return GGC_NEW(T17); }
static void setp_T17(void *o, int k, Leaf v) { T17 t = (T17) o; (void) t; (void) v; switch (k) {
    default: vh_bug("member"); } }
static Leaf getp_T17(void *o, int k) { T17 t = (T17) o; (void) t; switch (k) {
    default: return NULL; } }
static void setd_T17(void *o, uint64_t s) { T17 t = (T17) o; { size_t v = s; GGC_WD(t, id, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { double v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
}
static int chkd_T17(void *o, uint64_t s) { T17 t = (T17) o; if (GGC_RD(t, id) != s) return -1;
    { GGC_voidp v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { double v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    return 0; }
static int zero_T17(void *o) { T17 t = (T17) o;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T17[] = { 0 };

GGC_TYPE(T18)
    GGC_MDATA(size_t, id);
    GGC_MDATA(short, d0);
    GGC_MDATA(short, d1);
    GGC_MDATA(short, d2);
    GGC_MDATA(short, d3);
    GGC_MDATA(GGC_voidp, d4);
    GGC_MDATA(GGC_voidp, d5);
GGC_END_TYPE(T18,
    GGC_NO_PTRS
    )
static void *new_T18(void) { return GGC_NEW(T18); }
static void setp_T18(void *o, int k, Leaf v) { T18 t = (T18) o; (void) t; (void) v; switch (k) {
    default: vh_bug("member"); } }
static Leaf getp_T18(void *o, int k) { T18 t = (T18) o; (void) t; switch (k) {
    default: return NULL; } }
static void setd_T18(void *o, uint64_t s) { T18 t = (T18) o; { size_t v = s; GGC_WD(t, id, v); }
    { short v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { short v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { short v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { short v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
}
static int chkd_T18(void *o, uint64_t s) { T18 t = (T18) o; if (GGC_RD(t, id) != s) return -1;
    { short v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { short v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { short v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { short v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { GGC_voidp v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { GGC_voidp v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    return 0; }
static int zero_T18(void *o) { T18 t = (T18) o;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T18[] = { 0 };

GGC_TYPE(T19)
    GGC_MDATA(size_t, id);
    GGC_MDATA(size_t, d0);
    GGC_MDATA(int, d1);
    GGC_MDATA(int, d2);
    GGC_MDATA(long, d3);
    GGC_MDATA(int, d4);
    GGC_MDATA(int, d5);
GGC_END_TYPE(T19,
    GGC_NO_PTRS
    )
static void *new_T19(void) { return GGC_NEW(T19); }
static void setp_T19(void *o, int k, Leaf v) { T19 t = (T19) o; (void) t; (void) v; switch (k) {
    default: vh_bug("member"); } }
static Leaf getp_T19(void *o, int k) { T19 t = (T19) o; (void) t; switch (k) {
    default: return NULL; } }
static void setd_T19(void *o, uint64_t s) { T19 t = (T19) o; { size_t v = s; GGC_WD(t, id, v); }
    { size_t v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { int v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { int v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { long v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { int v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { int v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
}
static int chkd_T19(void *o, uint64_t s) { T19 t = (T19) o; if (GGC_RD(t, id) != s) return -1;
    { size_t v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { int v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { int v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { long v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { int v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { int v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    return 0; }
static int zero_T19(void *o) { T19 t = (T19) o;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T19[] = { 0 };

GGC_TYPE(T20)
    GGC_MDATA(size_t, id);
    GGC_MDATA(Big3, d0);
    GGC_MDATA(GGC_voidp, d1);
    GGC_MDATA(char, d2);
    GGC_MDATA(char, d3);
    GGC_MDATA(char, d4);
    GGC_MDATA(char, d5);
    GGC_MDATA(char, d6);
    GGC_MDATA(char, d7);
    GGC_MDATA(char, d8);
    GGC_MDATA(char, d9);
    GGC_MDATA(size_t, d10);
    GGC_MDATA(long, d11);
GGC_END_TYPE(T20,
    GGC_NO_PTRS
    )
static void *new_T20(void) { return GGC_NEW(T20); }
static void setp_T20(void *o, int k, Leaf v) { T20 t = (T20) o; (void) t; (void) v; switch (k) {
    default: vh_bug("member"); } }
static Leaf getp_T20(void *o, int k) { T20 t = (T20) o; (void) t; switch (k) {
    default: return NULL; } }
static void setd_T20(void *o, uint64_t s) { T20 t = (T20) o; { size_t v = s; GGC_WD(t, id, v); }
    { Big3 v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { char v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { char v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { char v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { char v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { char v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { char v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { char v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { char v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { size_t v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { long v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
}
static int chkd_T20(void *o, uint64_t s) { T20 t = (T20) o; if (GGC_RD(t, id) != s) return -1;
    { Big3 v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { GGC_voidp v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { char v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { char v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { char v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { char v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { char v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { char v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { char v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { char v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { size_t v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { long v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    return 0; }
static int zero_T20(void *o) { T20 t = (T20) o;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T20[] = { 0 };

GGC_TYPE(T21)
    GGC_MDATA(size_t, id);
    GGC_MDATA(double, d0);
    GGC_MDATA(float, d1);
    GGC_MDATA(float, d2);
    GGC_MDATA(Big3, d3);
    GGC_MDATA(Big3, d4);
    GGC_MDATA(char, d5);
    GGC_MDATA(char, d6);
    GGC_MDATA(char, d7);
    GGC_MDATA(char, d8);
    GGC_MDATA(char, d9);
    GGC_MDATA(char, d10);
    GGC_MDATA(char, d11);
    GGC_MDATA(char, d12);
    GGC_MDATA(Big17, d13);
    GGC_MDATA(double, d14);
    GGC_MDATA(long, d15);
    GGC_MDATA(size_t, d16);
GGC_END_TYPE(T21,
    GGC_NO_PTRS
    )
static void *new_T21(void) { return GGC_NEW(T21); }
static void setp_T21(void *o, int k, Leaf v) { T21 t = (T21) o; (void) t; (void) v; switch (k) {
    default: vh_bug("member"); } }
static Leaf getp_T21(void *o, int k) { T21 t = (T21) o; (void) t; switch (k) {
    default: return NULL; } }
static void setd_T21(void *o, uint64_t s) { T21 t = (T21) o; { size_t v = s; GGC_WD(t, id, v); }
    { double v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { float v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { float v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { Big3 v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { Big3 v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { char v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { char v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { char v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { char v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { char v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { char v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { char v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { char v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { Big17 v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { double v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { long v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { size_t v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
}
static int chkd_T21(void *o, uint64_t s) { T21 t = (T21) o; if (GGC_RD(t, id) != s) return -1;
    { double v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { float v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { float v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { Big3 v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { Big3 v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { char v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { char v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { char v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { char v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { char v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { char v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { char v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { char v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { Big17 v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { double v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { long v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { size_t v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    return 0; }
static int zero_T21(void *o) { T21 t = (T21) o;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T21[] = { 0 };

GGC_TYPE(T22)
    GGC_MDATA(size_t, id);
    GGC_MDATA(int, d0);
    GGC_MDATA(int, d1);
    GGC_MDATA(long, d2);
    GGC_MDATA(long, d3);
    GGC_MDATA(size_t, d4);
    GGC_MDATA(double, d5);
    GGC_MDATA(long, d6);
    GGC_MDATA(short, d7);
    GGC_MDATA(short, d8);
    GGC_MDATA(short, d9);
    GGC_MDATA(short, d10);
    GGC_MDATA(size_t, d11);
    GGC_MDATA(short, d12);
    GGC_MDATA(short, d13);
    GGC_MDATA(short, d14);
    GGC_MDATA(short, d15);
    GGC_MDATA(double, d16);
    GGC_MDATA(Big3, d17);
    GGC_MDATA(double, d18);
    GGC_MDATA(int, d19);
    GGC_MDATA(int, d20);
    GGC_MDATA(long, d21);
    GGC_MDATA(unsigned, d22);
    GGC_MDATA(unsigned, d23);
    GGC_MDATA(size_t, d24);
    GGC_MDATA(size_t, d25);
    GGC_MDATA(double, d26);
    GGC_MDATA(long, d27);
    GGC_MDATA(long, d28);
    GGC_MDATA(unsigned, d29);
    GGC_MDATA(unsigned, d30);
    GGC_MDATA(unsigned, d31);
    GGC_MDATA(unsigned, d32);
    GGC_MDATA(long, d33);
    GGC_MDATA(Tri, d34);
    GGC_MDATA(Tri, d35);
    GGC_MDATA(short, d36);
    GGC_MDATA(size_t, d37);
    GGC_MDATA(Big3, d38);
GGC_END_TYPE(T22,
    GGC_NO_PTRS
    )
static void *new_T22(void) { return GGC_NEW(T22); }
static void setp_T22(void *o, int k, Leaf v) { T22 t = (T22) o; (void) t; (void) v; switch (k) {
    default: vh_bug("member"); } }
static Leaf getp_T22(void *o, int k) { T22 t = (T22) o; (void) t; switch (k) {
    default: return NULL; } }
static void setd_T22(void *o, uint64_t s) { T22 t = (T22) o; { size_t v = s; GGC_WD(t, id, v); }
    { int v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { int v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { long v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { long v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { size_t v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { double v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { long v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { short v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { short v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { short v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { short v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { size_t v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { short v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { short v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { short v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { short v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { double v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { Big3 v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { double v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { int v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { int v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { long v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { unsigned v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { unsigned v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { size_t v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { size_t v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { double v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { long v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { long v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { unsigned v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { unsigned v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { unsigned v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { unsigned v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { long v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { Tri v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { Tri v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { short v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
    { size_t v; bits(&v, sizeof(v), s, 37); GGC_WD(t, d37, v); }
    { Big3 v; bits(&v, sizeof(v), s, 38); GGC_WD(t, d38, v); }
}
static int chkd_T22(void *o, uint64_t s) { T22 t = (T22) o; if (GGC_RD(t, id) != s) return -1;
    { int v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { int v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { long v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { long v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { size_t v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { double v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { long v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { short v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { short v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { short v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { short v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { size_t v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { short v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { short v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { short v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { short v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { double v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { Big3 v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { double v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { int v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { int v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { long v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { unsigned v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { unsigned v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { size_t v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { size_t v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { double v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { long v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { long v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { unsigned v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { unsigned v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { unsigned v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { unsigned v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { long v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { Tri v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { Tri v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { short v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    { size_t v = GGC_RD(t, d37); if (!same(&v, sizeof(v), s, 37)) return 38; }
    { Big3 v = GGC_RD(t, d38); if (!same(&v, sizeof(v), s, 38)) return 39; }
    return 0; }
static int zero_T22(void *o) { T22 t = (T22) o;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T22[] = { 0 };

GGC_TYPE(T23)
    GGC_MDATA(size_t, id);
    GGC_MDATA(long, d0);
    GGC_MDATA(Big3, d1);
    GGC_MDATA(Big3, d2);
    GGC_MDATA(char, d3);
    GGC_MDATA(char, d4);
    GGC_MDATA(char, d5);
    GGC_MDATA(char, d6);
    GGC_MDATA(char, d7);
    GGC_MDATA(char, d8);
    GGC_MDATA(char, d9);
    GGC_MDATA(char, d10);
    GGC_MDATA(double, d11);
    GGC_MDATA(Big17, d12);
    GGC_MDATA(double, d13);
    GGC_MDATA(Big3, d14);
    GGC_MDATA(long, d15);
GGC_END_TYPE(T23,
    GGC_NO_PTRS
    )
static void *new_T23(void) { return GGC_NEW(T23); }
static void setp_T23(void *o, int k, Leaf v) { T23 t = (T23) o; (void) t; (void) v; switch (k) {
    default: vh_bug("member"); } }
static Leaf getp_T23(void *o, int k) { T23 t = (T23) o; (void) t; switch (k) {
    default: return NULL; } }
static void setd_T23(void *o, uint64_t s) { T23 t = (T23) o; { size_t v = s; GGC_WD(t, id, v); }
    { long v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { Big3 v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { Big3 v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { char v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { char v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { char v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { char v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { char v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { char v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { char v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { char v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { double v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { Big17 v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { double v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { Big3 v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { long v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
}
static int chkd_T23(void *o, uint64_t s) { T23 t = (T23) o; if (GGC_RD(t, id) != s) return -1;
    { long v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { Big3 v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { Big3 v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { char v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { char v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { char v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { char v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { char v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { char v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { char v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { char v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { double v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { Big17 v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { double v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { Big3 v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { long v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    return 0; }
static int zero_T23(void *o) { T23 t = (T23) o;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T23[] = { 0 };

GGC_TYPE(T24)
    GGC_MDATA(size_t, id);
    GGC_MDATA(float, d0);
    GGC_MDATA(float, d1);
    GGC_MDATA(long, d2);
    GGC_MDATA(float, d3);
    GGC_MDATA(float, d4);
    GGC_MDATA(long, d5);
    GGC_MDATA(short, d6);
    GGC_MDATA(short, d7);
    GGC_MDATA(short, d8);
    GGC_MDATA(short, d9);
    GGC_MDATA(char, d10);
    GGC_MDATA(char, d11);
    GGC_MDATA(char, d12);
    GGC_MDATA(char, d13);
    GGC_MDATA(char, d14);
    GGC_MDATA(char, d15);
    GGC_MDATA(char, d16);
    GGC_MDATA(char, d17);
    GGC_MDATA(Tri, d18);
    GGC_MDATA(Tri, d19);
    GGC_MDATA(short, d20);
    GGC_MDATA(char, d21);
    GGC_MDATA(char, d22);
    GGC_MDATA(char, d23);
    GGC_MDATA(char, d24);
    GGC_MDATA(char, d25);
    GGC_MDATA(char, d26);
    GGC_MDATA(char, d27);
    GGC_MDATA(char, d28);
    GGC_MDATA(long, d29);
    GGC_MDATA(Big3, d30);
    GGC_MDATA(long, d31);
    GGC_MDATA(Big17, d32);
    GGC_MDATA(GGC_voidp, d33);
    GGC_MDATA(long, d34);
GGC_END_TYPE(T24,
    GGC_NO_PTRS
    )
static void *new_T24(void) { return GGC_NEW(T24); }
static void setp_T24(void *o, int k, Leaf v) { T24 t = (T24) o; (void) t; (void) v; switch (k) {
    default: vh_bug("member"); } }
static Leaf getp_T24(void *o, int k) { T24 t = (T24) o; (void) t; switch (k) {
    default: return NULL; } }
static void setd_T24(void *o, uint64_t s) { T24 t = (T24) o; { size_t v = s; GGC_WD(t, id, v); }
    { float v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { float v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { long v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { float v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { float v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { long v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { short v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { short v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { short v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { short v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { char v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { char v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { char v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { char v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { char v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { char v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { char v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { char v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { Tri v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { Tri v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { short v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { char v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { char v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { char v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { char v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { char v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { char v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { char v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { char v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { long v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { Big3 v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { long v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { Big17 v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { long v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
}
static int chkd_T24(void *o, uint64_t s) { T24 t = (T24) o; if (GGC_RD(t, id) != s) return -1;
    { float v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { float v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { long v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { float v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { float v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { long v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { short v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { short v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { short v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { short v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { char v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { char v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { char v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { char v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { char v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { char v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { char v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { char v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { Tri v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { Tri v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { short v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { char v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { char v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { char v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { char v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { char v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { char v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { char v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { char v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { long v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { Big3 v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { long v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { Big17 v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { GGC_voidp v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { long v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    return 0; }
static int zero_T24(void *o) { T24 t = (T24) o;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T24[] = { 0 };

GGC_TYPE(T25)
    GGC_MDATA(size_t, id);
    GGC_MDATA(short, d0);
    GGC_MDATA(short, d1);
    GGC_MDATA(short, d2);
    GGC_MDATA(short, d3);
    GGC_MDATA(GGC_voidp, d4);
    GGC_MDATA(Big17, d5);
    GGC_MDATA(long, d6);
    GGC_MDATA(float, d7);
    GGC_MDATA(float, d8);
    GGC_MDATA(float, d9);
    GGC_MDATA(float, d10);
    GGC_MDATA(int, d11);
    GGC_MDATA(int, d12);
    GGC_MDATA(GGC_voidp, d13);
    GGC_MDATA(unsigned, d14);
    GGC_MDATA(unsigned, d15);
    GGC_MDATA(GGC_voidp, d16);
    GGC_MDATA(short, d17);
    GGC_MDATA(short, d18);
    GGC_MDATA(short, d19);
    GGC_MDATA(short, d20);
    GGC_MDATA(int, d21);
    GGC_MDATA(int, d22);
    GGC_MDATA(long, d23);
    GGC_MDATA(Tri, d24);
    GGC_MDATA(Tri, d25);
    GGC_MDATA(short, d26);
    GGC_MDATA(double, d27);
    GGC_MDATA(size_t, d28);
    GGC_MDATA(Big17, d29);
    GGC_MDATA(short, d30);
    GGC_MDATA(short, d31);
    GGC_MDATA(short, d32);
    GGC_MDATA(short, d33);
    GGC_MDATA(size_t, d34);
    GGC_MDATA(GGC_voidp, d35);
    GGC_MDATA(short, d36);
    GGC_MDATA(short, d37);
    GGC_MDATA(short, d38);
    GGC_MDATA(short, d39);
    GGC_MDATA(double, d40);
    GGC_MDATA(Tri, d41);
    GGC_MDATA(Tri, d42);
    GGC_MDATA(short, d43);
    GGC_MDATA(size_t, d44);
    GGC_MDATA(Tri, d45);
    GGC_MDATA(Tri, d46);
    GGC_MDATA(short, d47);
    GGC_MDATA(Big3, d48);
    GGC_MDATA(unsigned, d49);
    GGC_MDATA(unsigned, d50);
GGC_END_TYPE(T25,
    GGC_NO_PTRS
    )
static void *new_T25(void) { return GGC_NEW(T25); }
static void setp_T25(void *o, int k, Leaf v) { T25 t = (T25) o; (void) t; (void) v; switch (k) {
    default: vh_bug("member"); } }
static Leaf getp_T25(void *o, int k) { T25 t = (T25) o; (void) t; switch (k) {
    default: return NULL; } }
static void setd_T25(void *o, uint64_t s) { T25 t = (T25) o; { size_t v = s; GGC_WD(t, id, v); }
    { short v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { short v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { short v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { short v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { Big17 v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { long v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { float v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { float v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { float v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { float v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { int v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { int v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { unsigned v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { unsigned v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { short v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { short v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { short v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { short v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { int v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { int v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { long v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { Tri v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { Tri v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { short v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { double v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { size_t v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { Big17 v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { short v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { short v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { short v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { short v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { size_t v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { short v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
    { short v; bits(&v, sizeof(v), s, 37); GGC_WD(t, d37, v); }
    { short v; bits(&v, sizeof(v), s, 38); GGC_WD(t, d38, v); }
    { short v; bits(&v, sizeof(v), s, 39); GGC_WD(t, d39, v); }
    { double v; bits(&v, sizeof(v), s, 40); GGC_WD(t, d40, v); }
    { Tri v; bits(&v, sizeof(v), s, 41); GGC_WD(t, d41, v); }
    { Tri v; bits(&v, sizeof(v), s, 42); GGC_WD(t, d42, v); }
    { short v; bits(&v, sizeof(v), s, 43); GGC_WD(t, d43, v); }
    { size_t v; bits(&v, sizeof(v), s, 44); GGC_WD(t, d44, v); }
    { Tri v; bits(&v, sizeof(v), s, 45); GGC_WD(t, d45, v); }
    { Tri v; bits(&v, sizeof(v), s, 46); GGC_WD(t, d46, v); }
    { short v; bits(&v, sizeof(v), s, 47); GGC_WD(t, d47, v); }
    { Big3 v; bits(&v, sizeof(v), s, 48); GGC_WD(t, d48, v); }
    { unsigned v; bits(&v, sizeof(v), s, 49); GGC_WD(t, d49, v); }
    { unsigned v; bits(&v, sizeof(v), s, 50); GGC_WD(t, d50, v); }
}
static int chkd_T25(void *o, uint64_t s) { T25 t = (T25) o; if (GGC_RD(t, id) != s) return -1;
    { short v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { short v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { short v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { short v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { GGC_voidp v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { Big17 v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { long v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { float v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { float v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { float v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { float v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { int v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { int v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { GGC_voidp v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { unsigned v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { unsigned v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { GGC_voidp v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { short v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { short v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { short v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { short v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { int v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { int v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { long v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { Tri v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { Tri v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { short v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { double v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { size_t v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { Big17 v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { short v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { short v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { short v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { short v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { size_t v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { GGC_voidp v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { short v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    { short v = GGC_RD(t, d37); if (!same(&v, sizeof(v), s, 37)) return 38; }
    { short v = GGC_RD(t, d38); if (!same(&v, sizeof(v), s, 38)) return 39; }
    { short v = GGC_RD(t, d39); if (!same(&v, sizeof(v), s, 39)) return 40; }
    { double v = GGC_RD(t, d40); if (!same(&v, sizeof(v), s, 40)) return 41; }
    { Tri v = GGC_RD(t, d41); if (!same(&v, sizeof(v), s, 41)) return 42; }
    { Tri v = GGC_RD(t, d42); if (!same(&v, sizeof(v), s, 42)) return 43; }
    { short v = GGC_RD(t, d43); if (!same(&v, sizeof(v), s, 43)) return 44; }
    { size_t v = GGC_RD(t, d44); if (!same(&v, sizeof(v), s, 44)) return 45; }
    { Tri v = GGC_RD(t, d45); if (!same(&v, sizeof(v), s, 45)) return 46; }
    { Tri v = GGC_RD(t, d46); if (!same(&v, sizeof(v), s, 46)) return 47; }
    { short v = GGC_RD(t, d47); if (!same(&v, sizeof(v), s, 47)) return 48; }
    { Big3 v = GGC_RD(t, d48); if (!same(&v, sizeof(v), s, 48)) return 49; }
    { unsigned v = GGC_RD(t, d49); if (!same(&v, sizeof(v), s, 49)) return 50; }
    { unsigned v = GGC_RD(t, d50); if (!same(&v, sizeof(v), s, 50)) return 51; }
    return 0; }
static int zero_T25(void *o) { T25 t = (T25) o;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T25[] = { 0 };

GGC_TYPE(T26)
    GGC_MDATA(size_t, id);
    GGC_MDATA(Big3, d0);
    GGC_MDATA(Big17, d1);
    GGC_MDATA(GGC_voidp, d2);
    GGC_MDATA(Big3, d3);
    GGC_MDATA(unsigned, d4);
    GGC_MDATA(unsigned, d5);
    GGC_MDATA(Big3, d6);
    GGC_MDATA(Tri, d7);
    GGC_MDATA(Tri, d8);
    GGC_MDATA(short, d9);
    GGC_MDATA(Big17, d10);
    GGC_MDATA(Tri, d11);
    GGC_MDATA(Tri, d12);
    GGC_MDATA(short, d13);
    GGC_MDATA(GGC_voidp, d14);
    GGC_MDATA(float, d15);
    GGC_MDATA(float, d16);
    GGC_MDATA(double, d17);
    GGC_MDATA(GGC_voidp, d18);
    GGC_MDATA(Big3, d19);
    GGC_MDATA(Big3, d20);
    GGC_MDATA(Big3, d21);
    GGC_MDATA(double, d22);
    GGC_MDATA(GGC_voidp, d23);
GGC_END_TYPE(T26,
    GGC_NO_PTRS
    )
static void *new_T26(void) { return GGC_NEW(T26); }
static void setp_T26(void *o, int k, Leaf v) { T26 t = (T26) o; (void) t; (void) v; switch (k) {
    default: vh_bug("member"); } }
static Leaf getp_T26(void *o, int k) { T26 t = (T26) o; (void) t; switch (k) {
    default: return NULL; } }
static void setd_T26(void *o, uint64_t s) { T26 t = (T26) o; { size_t v = s; GGC_WD(t, id, v); }
    { Big3 v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { Big17 v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { Big3 v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { unsigned v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { unsigned v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { Big3 v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { Tri v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { Tri v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { short v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { Big17 v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { Tri v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { Tri v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { short v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { float v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { float v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { double v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { Big3 v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { Big3 v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { Big3 v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { double v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
}
static int chkd_T26(void *o, uint64_t s) { T26 t = (T26) o; if (GGC_RD(t, id) != s) return -1;
    { Big3 v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { Big17 v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { GGC_voidp v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { Big3 v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { unsigned v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { unsigned v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { Big3 v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { Tri v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { Tri v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { short v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { Big17 v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { Tri v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { Tri v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { short v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { GGC_voidp v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { float v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { float v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { double v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { GGC_voidp v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { Big3 v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { Big3 v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { Big3 v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { double v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { GGC_voidp v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    return 0; }
static int zero_T26(void *o) { T26 t = (T26) o;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T26[] = { 0 };

GGC_TYPE(T27)
    GGC_MDATA(size_t, id);
    GGC_MDATA(char, d0);
    GGC_MDATA(char, d1);
    GGC_MDATA(char, d2);
    GGC_MDATA(char, d3);
    GGC_MDATA(char, d4);
    GGC_MDATA(char, d5);
    GGC_MDATA(char, d6);
    GGC_MDATA(char, d7);
    GGC_MDATA(int, d8);
    GGC_MDATA(int, d9);
    GGC_MDATA(GGC_voidp, d10);
    GGC_MDATA(long, d11);
    GGC_MDATA(short, d12);
    GGC_MDATA(short, d13);
    GGC_MDATA(short, d14);
    GGC_MDATA(short, d15);
    GGC_MDATA(char, d16);
    GGC_MDATA(char, d17);
    GGC_MDATA(char, d18);
    GGC_MDATA(char, d19);
    GGC_MDATA(char, d20);
    GGC_MDATA(char, d21);
    GGC_MDATA(char, d22);
    GGC_MDATA(char, d23);
    GGC_MDATA(size_t, d24);
    GGC_MDATA(Big3, d25);
    GGC_MDATA(size_t, d26);
    GGC_MDATA(int, d27);
    GGC_MDATA(int, d28);
    GGC_MDATA(Big3, d29);
    GGC_MDATA(int, d30);
    GGC_MDATA(int, d31);
    GGC_MDATA(char, d32);
    GGC_MDATA(char, d33);
    GGC_MDATA(char, d34);
    GGC_MDATA(char, d35);
    GGC_MDATA(char, d36);
    GGC_MDATA(char, d37);
    GGC_MDATA(char, d38);
    GGC_MDATA(char, d39);
    GGC_MDATA(size_t, d40);
    GGC_MDATA(size_t, d41);
    GGC_MDATA(Big3, d42);
    GGC_MDATA(unsigned, d43);
    GGC_MDATA(unsigned, d44);
    GGC_MDATA(float, d45);
    GGC_MDATA(float, d46);
    GGC_MDATA(short, d47);
    GGC_MDATA(short, d48);
    GGC_MDATA(short, d49);
    GGC_MDATA(short, d50);
    GGC_MDATA(GGC_voidp, d51);
    GGC_MDATA(char, d52);
    GGC_MDATA(char, d53);
    GGC_MDATA(char, d54);
    GGC_MDATA(char, d55);
    GGC_MDATA(char, d56);
    GGC_MDATA(char, d57);
    GGC_MDATA(char, d58);
    GGC_MDATA(char, d59);
    GGC_MDATA(long, d60);
    GGC_MDATA(int, d61);
    GGC_MDATA(int, d62);
    GGC_MDATA(unsigned, d63);
    GGC_MDATA(unsigned, d64);
    GGC_MDATA(Big3, d65);
    GGC_MDATA(Tri, d66);
    GGC_MDATA(Tri, d67);
    GGC_MDATA(short, d68);
    GGC_MDATA(Tri, d69);
    GGC_MDATA(Tri, d70);
    GGC_MDATA(short, d71);
    GGC_MDATA(size_t, d72);
    GGC_MDATA(Big3, d73);
    GGC_MDATA(unsigned, d74);
    GGC_MDATA(unsigned, d75);
    GGC_MDATA(unsigned, d76);
    GGC_MDATA(unsigned, d77);
    GGC_MDATA(Big17, d78);
    GGC_MDATA(size_t, d79);
    GGC_MDATA(size_t, d80);
    GGC_MDATA(size_t, d81);
    GGC_MDATA(double, d82);
    GGC_MDATA(double, d83);
GGC_END_TYPE(T27,
    GGC_NO_PTRS
    )
static void *new_T27(void) { return GGC_NEW(T27); }
static void setp_T27(void *o, int k, Leaf v) { T27 t = (T27) o; (void) t; (void) v; switch (k) {
    default: vh_bug("member"); } }
static Leaf getp_T27(void *o, int k) { T27 t = (T27) o; (void) t; switch (k) {
    default: return NULL; } }
static void setd_T27(void *o, uint64_t s) { T27 t = (T27) o; { size_t v = s; GGC_WD(t, id, v); }
    { char v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { char v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { char v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { char v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { char v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { char v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { char v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { char v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { int v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { int v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { long v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { short v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { short v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { short v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { short v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { char v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { char v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { char v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { char v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { char v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { char v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { char v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { char v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { size_t v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { Big3 v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { size_t v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { int v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { int v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { Big3 v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { int v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { int v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { char v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { char v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { char v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { char v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { char v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
    { char v; bits(&v, sizeof(v), s, 37); GGC_WD(t, d37, v); }
    { char v; bits(&v, sizeof(v), s, 38); GGC_WD(t, d38, v); }
    { char v; bits(&v, sizeof(v), s, 39); GGC_WD(t, d39, v); }
    { size_t v; bits(&v, sizeof(v), s, 40); GGC_WD(t, d40, v); }
    { size_t v; bits(&v, sizeof(v), s, 41); GGC_WD(t, d41, v); }
    { Big3 v; bits(&v, sizeof(v), s, 42); GGC_WD(t, d42, v); }
    { unsigned v; bits(&v, sizeof(v), s, 43); GGC_WD(t, d43, v); }
    { unsigned v; bits(&v, sizeof(v), s, 44); GGC_WD(t, d44, v); }
    { float v; bits(&v, sizeof(v), s, 45); GGC_WD(t, d45, v); }
    { float v; bits(&v, sizeof(v), s, 46); GGC_WD(t, d46, v); }
    { short v; bits(&v, sizeof(v), s, 47); GGC_WD(t, d47, v); }
    { short v; bits(&v, sizeof(v), s, 48); GGC_WD(t, d48, v); }
    { short v; bits(&v, sizeof(v), s, 49); GGC_WD(t, d49, v); }
    { short v; bits(&v, sizeof(v), s, 50); GGC_WD(t, d50, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 51); GGC_WD(t, d51, v); }
    { char v; bits(&v, sizeof(v), s, 52); GGC_WD(t, d52, v); }
    { char v; bits(&v, sizeof(v), s, 53); GGC_WD(t, d53, v); }
    { char v; bits(&v, sizeof(v), s, 54); GGC_WD(t, d54, v); }
    { char v; bits(&v, sizeof(v), s, 55); GGC_WD(t, d55, v); }
    { char v; bits(&v, sizeof(v), s, 56); GGC_WD(t, d56, v); }
    { char v; bits(&v, sizeof(v), s, 57); GGC_WD(t, d57, v); }
    { char v; bits(&v, sizeof(v), s, 58); GGC_WD(t, d58, v); }
    { char v; bits(&v, sizeof(v), s, 59); GGC_WD(t, d59, v); }
    { long v; bits(&v, sizeof(v), s, 60); GGC_WD(t, d60, v); }
    { int v; bits(&v, sizeof(v), s, 61); GGC_WD(t, d61, v); }
    { int v; bits(&v, sizeof(v), s, 62); GGC_WD(t, d62, v); }
    { unsigned v; bits(&v, sizeof(v), s, 63); GGC_WD(t, d63, v); }
    { unsigned v; bits(&v, sizeof(v), s, 64); GGC_WD(t, d64, v); }
    { Big3 v; bits(&v, sizeof(v), s, 65); GGC_WD(t, d65, v); }
    { Tri v; bits(&v, sizeof(v), s, 66); GGC_WD(t, d66, v); }
    { Tri v; bits(&v, sizeof(v), s, 67); GGC_WD(t, d67, v); }
    { short v; bits(&v, sizeof(v), s, 68); GGC_WD(t, d68, v); }
    { Tri v; bits(&v, sizeof(v), s, 69); GGC_WD(t, d69, v); }
    { Tri v; bits(&v, sizeof(v), s, 70); GGC_WD(t, d70, v); }
    { short v; bits(&v, sizeof(v), s, 71); GGC_WD(t, d71, v); }
    { size_t v; bits(&v, sizeof(v), s, 72); GGC_WD(t, d72, v); }
    { Big3 v; bits(&v, sizeof(v), s, 73); GGC_WD(t, d73, v); }
    { unsigned v; bits(&v, sizeof(v), s, 74); GGC_WD(t, d74, v); }
    { unsigned v; bits(&v, sizeof(v), s, 75); GGC_WD(t, d75, v); }
    { unsigned v; bits(&v, sizeof(v), s, 76); GGC_WD(t, d76, v); }
    { unsigned v; bits(&v, sizeof(v), s, 77); GGC_WD(t, d77, v); }
    { Big17 v; bits(&v, sizeof(v), s, 78); GGC_WD(t, d78, v); }
    { size_t v; bits(&v, sizeof(v), s, 79); GGC_WD(t, d79, v); }
    { size_t v; bits(&v, sizeof(v), s, 80); GGC_WD(t, d80, v); }
    { size_t v; bits(&v, sizeof(v), s, 81); GGC_WD(t, d81, v); }
    { double v; bits(&v, sizeof(v), s, 82); GGC_WD(t, d82, v); }
    { double v; bits(&v, sizeof(v), s, 83); GGC_WD(t, d83, v); }
}
static int chkd_T27(void *o, uint64_t s) { T27 t = (T27) o; if (GGC_RD(t, id) != s) return -1;
    { char v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { char v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { char v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { char v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { char v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { char v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { char v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { char v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { int v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { int v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { GGC_voidp v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { long v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { short v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { short v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { short v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { short v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { char v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { char v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { char v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { char v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { char v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { char v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { char v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { char v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { size_t v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { Big3 v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { size_t v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { int v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { int v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { Big3 v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { int v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { int v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { char v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { char v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { char v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { char v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { char v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    { char v = GGC_RD(t, d37); if (!same(&v, sizeof(v), s, 37)) return 38; }
    { char v = GGC_RD(t, d38); if (!same(&v, sizeof(v), s, 38)) return 39; }
    { char v = GGC_RD(t, d39); if (!same(&v, sizeof(v), s, 39)) return 40; }
    { size_t v = GGC_RD(t, d40); if (!same(&v, sizeof(v), s, 40)) return 41; }
    { size_t v = GGC_RD(t, d41); if (!same(&v, sizeof(v), s, 41)) return 42; }
    { Big3 v = GGC_RD(t, d42); if (!same(&v, sizeof(v), s, 42)) return 43; }
    { unsigned v = GGC_RD(t, d43); if (!same(&v, sizeof(v), s, 43)) return 44; }
    { unsigned v = GGC_RD(t, d44); if (!same(&v, sizeof(v), s, 44)) return 45; }
    { float v = GGC_RD(t, d45); if (!same(&v, sizeof(v), s, 45)) return 46; }
    { float v = GGC_RD(t, d46); if (!same(&v, sizeof(v), s, 46)) return 47; }
    { short v = GGC_RD(t, d47); if (!same(&v, sizeof(v), s, 47)) return 48; }
    { short v = GGC_RD(t, d48); if (!same(&v, sizeof(v), s, 48)) return 49; }
    { short v = GGC_RD(t, d49); if (!same(&v, sizeof(v), s, 49)) return 50; }
    { short v = GGC_RD(t, d50); if (!same(&v, sizeof(v), s, 50)) return 51; }
    { GGC_voidp v = GGC_RD(t, d51); if (!same(&v, sizeof(v), s, 51)) return 52; }
    { char v = GGC_RD(t, d52); if (!same(&v, sizeof(v), s, 52)) return 53; }
    { char v = GGC_RD(t, d53); if (!same(&v, sizeof(v), s, 53)) return 54; }
    { char v = GGC_RD(t, d54); if (!same(&v, sizeof(v), s, 54)) return 55; }
    { char v = GGC_RD(t, d55); if (!same(&v, sizeof(v), s, 55)) return 56; }
    { char v = GGC_RD(t, d56); if (!same(&v, sizeof(v), s, 56)) return 57; }
    { char v = GGC_RD(t, d57); if (!same(&v, sizeof(v), s, 57)) return 58; }
    { char v = GGC_RD(t, d58); if (!same(&v, sizeof(v), s, 58)) return 59; }
    { char v = GGC_RD(t, d59); if (!same(&v, sizeof(v), s, 59)) return 60; }
    { long v = GGC_RD(t, d60); if (!same(&v, sizeof(v), s, 60)) return 61; }
    { int v = GGC_RD(t, d61); if (!same(&v, sizeof(v), s, 61)) return 62; }
    { int v = GGC_RD(t, d62); if (!same(&v, sizeof(v), s, 62)) return 63; }
    { unsigned v = GGC_RD(t, d63); if (!same(&v, sizeof(v), s, 63)) return 64; }
    { unsigned v = GGC_RD(t, d64); if (!same(&v, sizeof(v), s, 64)) return 65; }
    { Big3 v = GGC_RD(t, d65); if (!same(&v, sizeof(v), s, 65)) return 66; }
    { Tri v = GGC_RD(t, d66); if (!same(&v, sizeof(v), s, 66)) return 67; }
    { Tri v = GGC_RD(t, d67); if (!same(&v, sizeof(v), s, 67)) return 68; }
    { short v = GGC_RD(t, d68); if (!same(&v, sizeof(v), s, 68)) return 69; }
    { Tri v = GGC_RD(t, d69); if (!same(&v, sizeof(v), s, 69)) return 70; }
    { Tri v = GGC_RD(t, d70); if (!same(&v, sizeof(v), s, 70)) return 71; }
    { short v = GGC_RD(t, d71); if (!same(&v, sizeof(v), s, 71)) return 72; }
    { size_t v = GGC_RD(t, d72); if (!same(&v, sizeof(v), s, 72)) return 73; }
    { Big3 v = GGC_RD(t, d73); if (!same(&v, sizeof(v), s, 73)) return 74; }
    { unsigned v = GGC_RD(t, d74); if (!same(&v, sizeof(v), s, 74)) return 75; }
    { unsigned v = GGC_RD(t, d75); if (!same(&v, sizeof(v), s, 75)) return 76; }
    { unsigned v = GGC_RD(t, d76); if (!same(&v, sizeof(v), s, 76)) return 77; }
    { unsigned v = GGC_RD(t, d77); if (!same(&v, sizeof(v), s, 77)) return 78; }
    { Big17 v = GGC_RD(t, d78); if (!same(&v, sizeof(v), s, 78)) return 79; }
    { size_t v = GGC_RD(t, d79); if (!same(&v, sizeof(v), s, 79)) return 80; }
    { size_t v = GGC_RD(t, d80); if (!same(&v, sizeof(v), s, 80)) return 81; }
    { size_t v = GGC_RD(t, d81); if (!same(&v, sizeof(v), s, 81)) return 82; }
    { double v = GGC_RD(t, d82); if (!same(&v, sizeof(v), s, 82)) return 83; }
    { double v = GGC_RD(t, d83); if (!same(&v, sizeof(v), s, 83)) return 84; }
    return 0; }
static int zero_T27(void *o) { T27 t = (T27) o;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T27[] = { 0 };

GGC_TYPE(T28)
    GGC_MDATA(size_t, id);
    GGC_MDATA(unsigned, d0);
    GGC_MDATA(unsigned, d1);
    GGC_MDATA(long, d2);
    GGC_MDATA(Big3, d3);
    GGC_MDATA(Big17, d4);
    GGC_MDATA(unsigned, d5);
    GGC_MDATA(unsigned, d6);
    GGC_MDATA(unsigned, d7);
    GGC_MDATA(unsigned, d8);
    GGC_MDATA(Big3, d9);
    GGC_MDATA(Big3, d10);
    GGC_MDATA(unsigned, d11);
    GGC_MDATA(unsigned, d12);
    GGC_MDATA(int, d13);
    GGC_MDATA(int, d14);
    GGC_MDATA(char, d15);
    GGC_MDATA(char, d16);
    GGC_MDATA(char, d17);
    GGC_MDATA(char, d18);
    GGC_MDATA(char, d19);
    GGC_MDATA(char, d20);
    GGC_MDATA(char, d21);
    GGC_MDATA(char, d22);
    GGC_MDATA(double, d23);
    GGC_MDATA(int, d24);
    GGC_MDATA(int, d25);
    GGC_MDATA(size_t, d26);
    GGC_MDATA(float, d27);
    GGC_MDATA(float, d28);
    GGC_MDATA(Tri, d29);
    GGC_MDATA(Tri, d30);
    GGC_MDATA(short, d31);
    GGC_MDATA(GGC_voidp, d32);
    GGC_MDATA(short, d33);
    GGC_MDATA(short, d34);
    GGC_MDATA(short, d35);
    GGC_MDATA(short, d36);
    GGC_MDATA(double, d37);
    GGC_MDATA(long, d38);
    GGC_MDATA(short, d39);
    GGC_MDATA(short, d40);
    GGC_MDATA(short, d41);
    GGC_MDATA(short, d42);
    GGC_MDATA(double, d43);
    GGC_MDATA(float, d44);
    GGC_MDATA(float, d45);
    GGC_MDATA(Big17, d46);
    GGC_MDATA(char, d47);
    GGC_MDATA(char, d48);
    GGC_MDATA(char, d49);
    GGC_MDATA(char, d50);
    GGC_MDATA(char, d51);
    GGC_MDATA(char, d52);
    GGC_MDATA(char, d53);
    GGC_MDATA(char, d54);
    GGC_MDATA(GGC_voidp, d55);
GGC_END_TYPE(T28,
    GGC_NO_PTRS
    )
static void *new_T28(void) { return GGC_NEW(T28); }
static void setp_T28(void *o, int k, Leaf v) { T28 t = (T28) o; (void) t; (void) v; switch (k) {
    default: vh_bug("member"); } }
static Leaf getp_T28(void *o, int k) { T28 t = (T28) o; (void) t; switch (k) {
    default: return NULL; } }
static void setd_T28(void *o, uint64_t s) { T28 t = (T28) o; { size_t v = s; GGC_WD(t, id, v); }
    { unsigned v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { unsigned v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { long v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { Big3 v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { Big17 v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { unsigned v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { unsigned v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { unsigned v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { unsigned v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { Big3 v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { Big3 v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { unsigned v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { unsigned v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { int v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { int v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { char v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { char v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { char v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { char v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { char v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { char v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { char v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { char v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { double v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { int v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { int v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { size_t v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { float v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { float v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { Tri v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { Tri v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { short v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { short v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { short v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { short v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { short v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
    { double v; bits(&v, sizeof(v), s, 37); GGC_WD(t, d37, v); }
    { long v; bits(&v, sizeof(v), s, 38); GGC_WD(t, d38, v); }
    { short v; bits(&v, sizeof(v), s, 39); GGC_WD(t, d39, v); }
    { short v; bits(&v, sizeof(v), s, 40); GGC_WD(t, d40, v); }
    { short v; bits(&v, sizeof(v), s, 41); GGC_WD(t, d41, v); }
    { short v; bits(&v, sizeof(v), s, 42); GGC_WD(t, d42, v); }
    { double v; bits(&v, sizeof(v), s, 43); GGC_WD(t, d43, v); }
    { float v; bits(&v, sizeof(v), s, 44); GGC_WD(t, d44, v); }
    { float v; bits(&v, sizeof(v), s, 45); GGC_WD(t, d45, v); }
    { Big17 v; bits(&v, sizeof(v), s, 46); GGC_WD(t, d46, v); }
    { char v; bits(&v, sizeof(v), s, 47); GGC_WD(t, d47, v); }
    { char v; bits(&v, sizeof(v), s, 48); GGC_WD(t, d48, v); }
    { char v; bits(&v, sizeof(v), s, 49); GGC_WD(t, d49, v); }
    { char v; bits(&v, sizeof(v), s, 50); GGC_WD(t, d50, v); }
    { char v; bits(&v, sizeof(v), s, 51); GGC_WD(t, d51, v); }
    { char v; bits(&v, sizeof(v), s, 52); GGC_WD(t, d52, v); }
    { char v; bits(&v, sizeof(v), s, 53); GGC_WD(t, d53, v); }
    { char v; bits(&v, sizeof(v), s, 54); GGC_WD(t, d54, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 55); GGC_WD(t, d55, v); }
}
static int chkd_T28(void *o, uint64_t s) { T28 t = (T28) o; if (GGC_RD(t, id) != s) return -1;
    { unsigned v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { unsigned v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { long v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { Big3 v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { Big17 v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { unsigned v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { unsigned v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { unsigned v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { unsigned v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { Big3 v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { Big3 v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { unsigned v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { unsigned v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { int v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { int v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { char v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { char v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { char v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { char v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { char v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { char v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { char v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { char v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { double v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { int v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { int v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { size_t v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { float v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { float v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { Tri v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { Tri v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { short v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { GGC_voidp v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { short v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { short v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { short v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { short v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    { double v = GGC_RD(t, d37); if (!same(&v, sizeof(v), s, 37)) return 38; }
    { long v = GGC_RD(t, d38); if (!same(&v, sizeof(v), s, 38)) return 39; }
    { short v = GGC_RD(t, d39); if (!same(&v, sizeof(v), s, 39)) return 40; }
    { short v = GGC_RD(t, d40); if (!same(&v, sizeof(v), s, 40)) return 41; }
    { short v = GGC_RD(t, d41); if (!same(&v, sizeof(v), s, 41)) return 42; }
    { short v = GGC_RD(t, d42); if (!same(&v, sizeof(v), s, 42)) return 43; }
    { double v = GGC_RD(t, d43); if (!same(&v, sizeof(v), s, 43)) return 44; }
    { float v = GGC_RD(t, d44); if (!same(&v, sizeof(v), s, 44)) return 45; }
    { float v = GGC_RD(t, d45); if (!same(&v, sizeof(v), s, 45)) return 46; }
    { Big17 v = GGC_RD(t, d46); if (!same(&v, sizeof(v), s, 46)) return 47; }
    { char v = GGC_RD(t, d47); if (!same(&v, sizeof(v), s, 47)) return 48; }
    { char v = GGC_RD(t, d48); if (!same(&v, sizeof(v), s, 48)) return 49; }
    { char v = GGC_RD(t, d49); if (!same(&v, sizeof(v), s, 49)) return 50; }
    { char v = GGC_RD(t, d50); if (!same(&v, sizeof(v), s, 50)) return 51; }
    { char v = GGC_RD(t, d51); if (!same(&v, sizeof(v), s, 51)) return 52; }
    { char v = GGC_RD(t, d52); if (!same(&v, sizeof(v), s, 52)) return 53; }
    { char v = GGC_RD(t, d53); if (!same(&v, sizeof(v), s, 53)) return 54; }
    { char v = GGC_RD(t, d54); if (!same(&v, sizeof(v), s, 54)) return 55; }
    { GGC_voidp v = GGC_RD(t, d55); if (!same(&v, sizeof(v), s, 55)) return 56; }
    return 0; }
static int zero_T28(void *o) { T28 t = (T28) o;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T28[] = { 0 };

GGC_TYPE(T29)
    GGC_MDATA(size_t, id);
    GGC_MDATA(Big3, d0);
    GGC_MDATA(long, d1);
    GGC_MDATA(short, d2);
    GGC_MDATA(short, d3);
    GGC_MDATA(short, d4);
    GGC_MDATA(short, d5);
    GGC_MDATA(long, d6);
    GGC_MDATA(Big3, d7);
    GGC_MDATA(Big3, d8);
    GGC_MDATA(long, d9);
    GGC_MDATA(Big17, d10);
    GGC_MDATA(short, d11);
    GGC_MDATA(short, d12);
    GGC_MDATA(short, d13);
    GGC_MDATA(short, d14);
    GGC_MDATA(unsigned, d15);
    GGC_MDATA(unsigned, d16);
    GGC_MDATA(GGC_voidp, d17);
    GGC_MDATA(size_t, d18);
    GGC_MDATA(Big17, d19);
    GGC_MDATA(long, d20);
    GGC_MDATA(GGC_voidp, d21);
    GGC_MDATA(long, d22);
    GGC_MDATA(Big3, d23);
    GGC_MDATA(double, d24);
    GGC_MDATA(long, d25);
    GGC_MDATA(double, d26);
    GGC_MDATA(Big3, d27);
    GGC_MDATA(char, d28);
    GGC_MDATA(char, d29);
    GGC_MDATA(char, d30);
    GGC_MDATA(char, d31);
    GGC_MDATA(char, d32);
    GGC_MDATA(char, d33);
    GGC_MDATA(char, d34);
    GGC_MDATA(char, d35);
    GGC_MDATA(int, d36);
    GGC_MDATA(int, d37);
GGC_END_TYPE(T29,
    GGC_NO_PTRS
    )
static void *new_T29(void) { return GGC_NEW(T29); }
static void setp_T29(void *o, int k, Leaf v) { T29 t = (T29) o; (void) t; (void) v; switch (k) {
    default: vh_bug("member"); } }
static Leaf getp_T29(void *o, int k) { T29 t = (T29) o; (void) t; switch (k) {
    default: return NULL; } }
static void setd_T29(void *o, uint64_t s) { T29 t = (T29) o; { size_t v = s; GGC_WD(t, id, v); }
    { Big3 v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { long v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { short v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { short v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { short v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { short v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { long v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { Big3 v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { Big3 v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { long v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { Big17 v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { short v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { short v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { short v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { short v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { unsigned v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { unsigned v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { size_t v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { Big17 v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { long v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { long v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { Big3 v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { double v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { long v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { double v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { Big3 v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { char v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { char v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { char v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { char v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { char v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { char v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { char v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { char v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { int v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
    { int v; bits(&v, sizeof(v), s, 37); GGC_WD(t, d37, v); }
}
static int chkd_T29(void *o, uint64_t s) { T29 t = (T29) o; if (GGC_RD(t, id) != s) return -1;
    { Big3 v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { long v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { short v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { short v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { short v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { short v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { long v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { Big3 v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { Big3 v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { long v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { Big17 v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { short v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { short v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { short v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { short v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { unsigned v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { unsigned v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { GGC_voidp v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { size_t v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { Big17 v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { long v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { GGC_voidp v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { long v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { Big3 v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { double v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { long v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { double v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { Big3 v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { char v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { char v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { char v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { char v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { char v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { char v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { char v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { char v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { int v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    { int v = GGC_RD(t, d37); if (!same(&v, sizeof(v), s, 37)) return 38; }
    return 0; }
static int zero_T29(void *o) { T29 t = (T29) o;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T29[] = { 0 };

GGC_TYPE(T30)
    GGC_MDATA(size_t, id);
    GGC_MDATA(double, d0);
    GGC_MDATA(double, d1);
    GGC_MDATA(GGC_voidp, d2);
    GGC_MDATA(Tri, d3);
    GGC_MDATA(Tri, d4);
    GGC_MDATA(short, d5);
    GGC_MDATA(size_t, d6);
    GGC_MDATA(Big17, d7);
    GGC_MDATA(long, d8);
    GGC_MDATA(size_t, d9);
    GGC_MDATA(long, d10);
    GGC_MDATA(long, d11);
    GGC_MDATA(int, d12);
    GGC_MDATA(int, d13);
    GGC_MDATA(double, d14);
    GGC_MDATA(Big17, d15);
    GGC_MDATA(char, d16);
    GGC_MDATA(char, d17);
    GGC_MDATA(char, d18);
    GGC_MDATA(char, d19);
    GGC_MDATA(char, d20);
    GGC_MDATA(char, d21);
    GGC_MDATA(char, d22);
    GGC_MDATA(char, d23);
    GGC_MDATA(double, d24);
    GGC_MDATA(short, d25);
    GGC_MDATA(short, d26);
    GGC_MDATA(short, d27);
    GGC_MDATA(short, d28);
    GGC_MDATA(double, d29);
    GGC_MDATA(long, d30);
    GGC_MDATA(size_t, d31);
    GGC_MDATA(long, d32);
    GGC_MDATA(GGC_voidp, d33);
    GGC_MDATA(float, d34);
    GGC_MDATA(float, d35);
    GGC_MDATA(Big17, d36);
    GGC_MDATA(GGC_voidp, d37);
    GGC_MDATA(size_t, d38);
    GGC_MDATA(double, d39);
    GGC_MDATA(Big17, d40);
    GGC_MDATA(long, d41);
    GGC_MDATA(double, d42);
    GGC_MDATA(double, d43);
    GGC_MDATA(Big3, d44);
    GGC_MDATA(size_t, d45);
    GGC_MDATA(short, d46);
    GGC_MDATA(short, d47);
    GGC_MDATA(short, d48);
    GGC_MDATA(short, d49);
    GGC_MDATA(size_t, d50);
GGC_END_TYPE(T30,
    GGC_NO_PTRS
    )
static void *new_T30(void) { return GGC_NEW(T30); }
static void setp_T30(void *o, int k, Leaf v) { T30 t = (T30) o; (void) t; (void) v; switch (k) {
    default: vh_bug("member"); } }
static Leaf getp_T30(void *o, int k) { T30 t = (T30) o; (void) t; switch (k) {
    default: return NULL; } }
static void setd_T30(void *o, uint64_t s) { T30 t = (T30) o; { size_t v = s; GGC_WD(t, id, v); }
    { double v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { double v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { Tri v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { Tri v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { short v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { size_t v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { Big17 v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { long v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { size_t v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { long v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { long v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { int v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { int v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { double v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { Big17 v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { char v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { char v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { char v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { char v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { char v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { char v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { char v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { char v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { double v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { short v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { short v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { short v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { short v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { double v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { long v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { size_t v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { long v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { float v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { float v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { Big17 v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 37); GGC_WD(t, d37, v); }
    { size_t v; bits(&v, sizeof(v), s, 38); GGC_WD(t, d38, v); }
    { double v; bits(&v, sizeof(v), s, 39); GGC_WD(t, d39, v); }
    { Big17 v; bits(&v, sizeof(v), s, 40); GGC_WD(t, d40, v); }
    { long v; bits(&v, sizeof(v), s, 41); GGC_WD(t, d41, v); }
    { double v; bits(&v, sizeof(v), s, 42); GGC_WD(t, d42, v); }
    { double v; bits(&v, sizeof(v), s, 43); GGC_WD(t, d43, v); }
    { Big3 v; bits(&v, sizeof(v), s, 44); GGC_WD(t, d44, v); }
    { size_t v; bits(&v, sizeof(v), s, 45); GGC_WD(t, d45, v); }
    { short v; bits(&v, sizeof(v), s, 46); GGC_WD(t, d46, v); }
    { short v; bits(&v, sizeof(v), s, 47); GGC_WD(t, d47, v); }
    { short v; bits(&v, sizeof(v), s, 48); GGC_WD(t, d48, v); }
    { short v; bits(&v, sizeof(v), s, 49); GGC_WD(t, d49, v); }
    { size_t v; bits(&v, sizeof(v), s, 50); GGC_WD(t, d50, v); }
}
static int chkd_T30(void *o, uint64_t s) { T30 t = (T30) o; if (GGC_RD(t, id) != s) return -1;
    { double v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { double v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { GGC_voidp v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { Tri v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { Tri v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { short v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { size_t v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { Big17 v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { long v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { size_t v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { long v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { long v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { int v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { int v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { double v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { Big17 v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { char v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { char v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { char v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { char v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { char v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { char v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { char v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { char v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { double v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { short v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { short v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { short v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { short v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { double v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { long v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { size_t v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { long v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { GGC_voidp v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { float v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { float v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { Big17 v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    { GGC_voidp v = GGC_RD(t, d37); if (!same(&v, sizeof(v), s, 37)) return 38; }
    { size_t v = GGC_RD(t, d38); if (!same(&v, sizeof(v), s, 38)) return 39; }
    { double v = GGC_RD(t, d39); if (!same(&v, sizeof(v), s, 39)) return 40; }
    { Big17 v = GGC_RD(t, d40); if (!same(&v, sizeof(v), s, 40)) return 41; }
    { long v = GGC_RD(t, d41); if (!same(&v, sizeof(v), s, 41)) return 42; }
    { double v = GGC_RD(t, d42); if (!same(&v, sizeof(v), s, 42)) return 43; }
    { double v = GGC_RD(t, d43); if (!same(&v, sizeof(v), s, 43)) return 44; }
    { Big3 v = GGC_RD(t, d44); if (!same(&v, sizeof(v), s, 44)) return 45; }
    { size_t v = GGC_RD(t, d45); if (!same(&v, sizeof(v), s, 45)) return 46; }
    { short v = GGC_RD(t, d46); if (!same(&v, sizeof(v), s, 46)) return 47; }
    { short v = GGC_RD(t, d47); if (!same(&v, sizeof(v), s, 47)) return 48; }
    { short v = GGC_RD(t, d48); if (!same(&v, sizeof(v), s, 48)) return 49; }
    { short v = GGC_RD(t, d49); if (!same(&v, sizeof(v), s, 49)) return 50; }
    { size_t v = GGC_RD(t, d50); if (!same(&v, sizeof(v), s, 50)) return 51; }
    return 0; }
static int zero_T30(void *o) { T30 t = (T30) o;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T30[] = { 0 };

GGC_TYPE(T31)
    GGC_MDATA(size_t, id);
    GGC_MDATA(Tri, d0);
    GGC_MDATA(Tri, d1);
    GGC_MDATA(short, d2);
    GGC_MDATA(short, d3);
    GGC_MDATA(short, d4);
    GGC_MDATA(short, d5);
    GGC_MDATA(short, d6);
    GGC_MDATA(Big17, d7);
    GGC_MDATA(long, d8);
    GGC_MDATA(double, d9);
    GGC_MDATA(Tri, d10);
    GGC_MDATA(Tri, d11);
    GGC_MDATA(short, d12);
    GGC_MDATA(double, d13);
    GGC_MDATA(Big17, d14);
    GGC_MDATA(Big3, d15);
    GGC_MDATA(float, d16);
    GGC_MDATA(float, d17);
    GGC_MDATA(Big3, d18);
    GGC_MDATA(int, d19);
    GGC_MDATA(int, d20);
    GGC_MDATA(char, d21);
    GGC_MDATA(char, d22);
    GGC_MDATA(char, d23);
    GGC_MDATA(char, d24);
    GGC_MDATA(char, d25);
    GGC_MDATA(char, d26);
    GGC_MDATA(char, d27);
    GGC_MDATA(char, d28);
    GGC_MDATA(Big3, d29);
    GGC_MDATA(double, d30);
    GGC_MDATA(long, d31);
    GGC_MDATA(int, d32);
    GGC_MDATA(int, d33);
    GGC_MDATA(double, d34);
    GGC_MDATA(Big3, d35);
    GGC_MDATA(Big17, d36);
    GGC_MDATA(int, d37);
    GGC_MDATA(int, d38);
    GGC_MDATA(int, d39);
    GGC_MDATA(int, d40);
    GGC_MDATA(int, d41);
    GGC_MDATA(int, d42);
    GGC_MDATA(char, d43);
    GGC_MDATA(char, d44);
    GGC_MDATA(char, d45);
    GGC_MDATA(char, d46);
    GGC_MDATA(char, d47);
    GGC_MDATA(char, d48);
    GGC_MDATA(char, d49);
    GGC_MDATA(char, d50);
    GGC_MDATA(Big17, d51);
    GGC_MDATA(Big3, d52);
    GGC_MDATA(GGC_voidp, d53);
    GGC_MDATA(double, d54);
    GGC_MDATA(long, d55);
    GGC_MDATA(Big3, d56);
    GGC_MDATA(double, d57);
    GGC_MDATA(Big17, d58);
    GGC_MDATA(double, d59);
    GGC_MDATA(char, d60);
    GGC_MDATA(char, d61);
    GGC_MDATA(char, d62);
    GGC_MDATA(char, d63);
    GGC_MDATA(char, d64);
    GGC_MDATA(char, d65);
    GGC_MDATA(char, d66);
    GGC_MDATA(char, d67);
GGC_END_TYPE(T31,
    GGC_NO_PTRS
    )
static void *new_T31(void) { return GGC_NEW(T31); }
static void setp_T31(void *o, int k, Leaf v) { T31 t = (T31) o; (void) t; (void) v; switch (k) {
    default: vh_bug("member"); } }
static Leaf getp_T31(void *o, int k) { T31 t = (T31) o; (void) t; switch (k) {
    default: return NULL; } }
static void setd_T31(void *o, uint64_t s) { T31 t = (T31) o; { size_t v = s; GGC_WD(t, id, v); }
    { Tri v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { Tri v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { short v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { short v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { short v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { short v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { short v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { Big17 v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { long v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { double v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { Tri v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { Tri v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { short v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { double v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { Big17 v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { Big3 v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { float v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { float v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { Big3 v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { int v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { int v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { char v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { char v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { char v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { char v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { char v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { char v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { char v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { char v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { Big3 v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { double v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { long v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { int v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { int v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { double v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { Big3 v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { Big17 v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
    { int v; bits(&v, sizeof(v), s, 37); GGC_WD(t, d37, v); }
    { int v; bits(&v, sizeof(v), s, 38); GGC_WD(t, d38, v); }
    { int v; bits(&v, sizeof(v), s, 39); GGC_WD(t, d39, v); }
    { int v; bits(&v, sizeof(v), s, 40); GGC_WD(t, d40, v); }
    { int v; bits(&v, sizeof(v), s, 41); GGC_WD(t, d41, v); }
    { int v; bits(&v, sizeof(v), s, 42); GGC_WD(t, d42, v); }
    { char v; bits(&v, sizeof(v), s, 43); GGC_WD(t, d43, v); }
    { char v; bits(&v, sizeof(v), s, 44); GGC_WD(t, d44, v); }
    { char v; bits(&v, sizeof(v), s, 45); GGC_WD(t, d45, v); }
    { char v; bits(&v, sizeof(v), s, 46); GGC_WD(t, d46, v); }
    { char v; bits(&v, sizeof(v), s, 47); GGC_WD(t, d47, v); }
    { char v; bits(&v, sizeof(v), s, 48); GGC_WD(t, d48, v); }
    { char v; bits(&v, sizeof(v), s, 49); GGC_WD(t, d49, v); }
    { char v; bits(&v, sizeof(v), s, 50); GGC_WD(t, d50, v); }
    { Big17 v; bits(&v, sizeof(v), s, 51); GGC_WD(t, d51, v); }
    { Big3 v; bits(&v, sizeof(v), s, 52); GGC_WD(t, d52, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 53); GGC_WD(t, d53, v); }
    { double v; bits(&v, sizeof(v), s, 54); GGC_WD(t, d54, v); }
    { long v; bits(&v, sizeof(v), s, 55); GGC_WD(t, d55, v); }
    { Big3 v; bits(&v, sizeof(v), s, 56); GGC_WD(t, d56, v); }
    { double v; bits(&v, sizeof(v), s, 57); GGC_WD(t, d57, v); }
    { Big17 v; bits(&v, sizeof(v), s, 58); GGC_WD(t, d58, v); }
    { double v; bits(&v, sizeof(v), s, 59); GGC_WD(t, d59, v); }
    { char v; bits(&v, sizeof(v), s, 60); GGC_WD(t, d60, v); }
    { char v; bits(&v, sizeof(v), s, 61); GGC_WD(t, d61, v); }
    { char v; bits(&v, sizeof(v), s, 62); GGC_WD(t, d62, v); }
    { char v; bits(&v, sizeof(v), s, 63); GGC_WD(t, d63, v); }
    { char v; bits(&v, sizeof(v), s, 64); GGC_WD(t, d64, v); }
    { char v; bits(&v, sizeof(v), s, 65); GGC_WD(t, d65, v); }
    { char v; bits(&v, sizeof(v), s, 66); GGC_WD(t, d66, v); }
    { char v; bits(&v, sizeof(v), s, 67); GGC_WD(t, d67, v); }
}
static int chkd_T31(void *o, uint64_t s) { T31 t = (T31) o; if (GGC_RD(t, id) != s) return -1;
    { Tri v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { Tri v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { short v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { short v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { short v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { short v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { short v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { Big17 v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { long v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { double v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { Tri v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { Tri v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { short v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { double v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { Big17 v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { Big3 v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { float v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { float v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { Big3 v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { int v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { int v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { char v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { char v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { char v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { char v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { char v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { char v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { char v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { char v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { Big3 v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { double v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { long v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { int v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { int v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { double v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { Big3 v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { Big17 v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    { int v = GGC_RD(t, d37); if (!same(&v, sizeof(v), s, 37)) return 38; }
    { int v = GGC_RD(t, d38); if (!same(&v, sizeof(v), s, 38)) return 39; }
    { int v = GGC_RD(t, d39); if (!same(&v, sizeof(v), s, 39)) return 40; }
    { int v = GGC_RD(t, d40); if (!same(&v, sizeof(v), s, 40)) return 41; }
    { int v = GGC_RD(t, d41); if (!same(&v, sizeof(v), s, 41)) return 42; }
    { int v = GGC_RD(t, d42); if (!same(&v, sizeof(v), s, 42)) return 43; }
    { char v = GGC_RD(t, d43); if (!same(&v, sizeof(v), s, 43)) return 44; }
    { char v = GGC_RD(t, d44); if (!same(&v, sizeof(v), s, 44)) return 45; }
    { char v = GGC_RD(t, d45); if (!same(&v, sizeof(v), s, 45)) return 46; }
    { char v = GGC_RD(t, d46); if (!same(&v, sizeof(v), s, 46)) return 47; }
    { char v = GGC_RD(t, d47); if (!same(&v, sizeof(v), s, 47)) return 48; }
    { char v = GGC_RD(t, d48); if (!same(&v, sizeof(v), s, 48)) return 49; }
    { char v = GGC_RD(t, d49); if (!same(&v, sizeof(v), s, 49)) return 50; }
    { char v = GGC_RD(t, d50); if (!same(&v, sizeof(v), s, 50)) return 51; }
    { Big17 v = GGC_RD(t, d51); if (!same(&v, sizeof(v), s, 51)) return 52; }
    { Big3 v = GGC_RD(t, d52); if (!same(&v, sizeof(v), s, 52)) return 53; }
    { GGC_voidp v = GGC_RD(t, d53); if (!same(&v, sizeof(v), s, 53)) return 54; }
    { double v = GGC_RD(t, d54); if (!same(&v, sizeof(v), s, 54)) return 55; }
    { long v = GGC_RD(t, d55); if (!same(&v, sizeof(v), s, 55)) return 56; }
    { Big3 v = GGC_RD(t, d56); if (!same(&v, sizeof(v), s, 56)) return 57; }
    { double v = GGC_RD(t, d57); if (!same(&v, sizeof(v), s, 57)) return 58; }
    { Big17 v = GGC_RD(t, d58); if (!same(&v, sizeof(v), s, 58)) return 59; }
    { double v = GGC_RD(t, d59); if (!same(&v, sizeof(v), s, 59)) return 60; }
    { char v = GGC_RD(t, d60); if (!same(&v, sizeof(v), s, 60)) return 61; }
    { char v = GGC_RD(t, d61); if (!same(&v, sizeof(v), s, 61)) return 62; }
    { char v = GGC_RD(t, d62); if (!same(&v, sizeof(v), s, 62)) return 63; }
    { char v = GGC_RD(t, d63); if (!same(&v, sizeof(v), s, 63)) return 64; }
    { char v = GGC_RD(t, d64); if (!same(&v, sizeof(v), s, 64)) return 65; }
    { char v = GGC_RD(t, d65); if (!same(&v, sizeof(v), s, 65)) return 66; }
    { char v = GGC_RD(t, d66); if (!same(&v, sizeof(v), s, 66)) return 67; }
    { char v = GGC_RD(t, d67); if (!same(&v, sizeof(v), s, 67)) return 68; }
    return 0; }
static int zero_T31(void *o) { T31 t = (T31) o;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T31[] = { 0 };

GGC_TYPE(T32)
    GGC_MDATA(size_t, id);
    GGC_MDATA(long, d0);
    GGC_MDATA(float, d1);
    GGC_MDATA(float, d2);
    GGC_MDATA(double, d3);
    GGC_MDATA(GGC_voidp, d4);
    GGC_MDATA(char, d5);
    GGC_MDATA(char, d6);
    GGC_MDATA(char, d7);
    GGC_MDATA(char, d8);
    GGC_MDATA(char, d9);
    GGC_MDATA(char, d10);
    GGC_MDATA(char, d11);
    GGC_MDATA(char, d12);
    GGC_MDATA(char, d13);
    GGC_MDATA(char, d14);
    GGC_MDATA(char, d15);
    GGC_MDATA(char, d16);
    GGC_MDATA(char, d17);
    GGC_MDATA(char, d18);
    GGC_MDATA(char, d19);
    GGC_MDATA(char, d20);
    GGC_MDATA(unsigned, d21);
    GGC_MDATA(unsigned, d22);
    GGC_MDATA(size_t, d23);
    GGC_MDATA(Big17, d24);
    GGC_MDATA(GGC_voidp, d25);
    GGC_MDATA(size_t, d26);
    GGC_MDATA(long, d27);
    GGC_MDATA(Big17, d28);
    GGC_MDATA(unsigned, d29);
    GGC_MDATA(unsigned, d30);
    GGC_MDATA(size_t, d31);
    GGC_MDATA(float, d32);
    GGC_MDATA(float, d33);
    GGC_MDATA(short, d34);
    GGC_MDATA(short, d35);
    GGC_MDATA(short, d36);
    GGC_MDATA(short, d37);
    GGC_MDATA(int, d38);
    GGC_MDATA(int, d39);
    GGC_MDATA(size_t, d40);
    GGC_MDATA(Big3, d41);
    GGC_MDATA(char, d42);
    GGC_MDATA(char, d43);
    GGC_MDATA(char, d44);
    GGC_MDATA(char, d45);
    GGC_MDATA(char, d46);
    GGC_MDATA(char, d47);
    GGC_MDATA(char, d48);
    GGC_MDATA(char, d49);
    GGC_MDATA(Big17, d50);
    GGC_MDATA(int, d51);
    GGC_MDATA(int, d52);
    GGC_MDATA(unsigned, d53);
    GGC_MDATA(unsigned, d54);
    GGC_MDATA(Big3, d55);
    GGC_MDATA(double, d56);
    GGC_MDATA(int, d57);
    GGC_MDATA(int, d58);
    GGC_MDATA(char, d59);
    GGC_MDATA(char, d60);
    GGC_MDATA(char, d61);
    GGC_MDATA(char, d62);
    GGC_MDATA(char, d63);
    GGC_MDATA(char, d64);
    GGC_MDATA(char, d65);
    GGC_MDATA(char, d66);
    GGC_MDATA(Big3, d67);
    GGC_MDATA(Big17, d68);
    GGC_MDATA(long, d69);
    GGC_MDATA(GGC_voidp, d70);
    GGC_MDATA(Big17, d71);
    GGC_MDATA(GGC_voidp, d72);
    GGC_MDATA(Big3, d73);
    GGC_MDATA(size_t, d74);
    GGC_MDATA(GGC_voidp, d75);
    GGC_MDATA(size_t, d76);
    GGC_MDATA(GGC_voidp, d77);
GGC_END_TYPE(T32,
    GGC_NO_PTRS
    )
static void *new_T32(void) { return GGC_NEW(T32); }
static void setp_T32(void *o, int k, Leaf v) { T32 t = (T32) o; (void) t; (void) v; switch (k) {
    default: vh_bug("member"); } }
static Leaf getp_T32(void *o, int k) { T32 t = (T32) o; (void) t; switch (k) {
    default: return NULL; } }
static void setd_T32(void *o, uint64_t s) { T32 t = (T32) o; { size_t v = s; GGC_WD(t, id, v); }
    { long v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { float v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { float v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { double v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { char v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { char v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { char v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { char v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { char v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { char v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { char v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { char v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { char v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { char v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { char v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { char v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { char v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { char v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { char v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { char v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { unsigned v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { unsigned v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { size_t v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { Big17 v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { size_t v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { long v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { Big17 v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { unsigned v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { unsigned v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { size_t v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { float v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { float v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { short v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { short v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { short v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
    { short v; bits(&v, sizeof(v), s, 37); GGC_WD(t, d37, v); }
    { int v; bits(&v, sizeof(v), s, 38); GGC_WD(t, d38, v); }
    { int v; bits(&v, sizeof(v), s, 39); GGC_WD(t, d39, v); }
    { size_t v; bits(&v, sizeof(v), s, 40); GGC_WD(t, d40, v); }
    { Big3 v; bits(&v, sizeof(v), s, 41); GGC_WD(t, d41, v); }
    { char v; bits(&v, sizeof(v), s, 42); GGC_WD(t, d42, v); }
    { char v; bits(&v, sizeof(v), s, 43); GGC_WD(t, d43, v); }
    { char v; bits(&v, sizeof(v), s, 44); GGC_WD(t, d44, v); }
    { char v; bits(&v, sizeof(v), s, 45); GGC_WD(t, d45, v); }
    { char v; bits(&v, sizeof(v), s, 46); GGC_WD(t, d46, v); }
    { char v; bits(&v, sizeof(v), s, 47); GGC_WD(t, d47, v); }
    { char v; bits(&v, sizeof(v), s, 48); GGC_WD(t, d48, v); }
    { char v; bits(&v, sizeof(v), s, 49); GGC_WD(t, d49, v); }
    { Big17 v; bits(&v, sizeof(v), s, 50); GGC_WD(t, d50, v); }
    { int v; bits(&v, sizeof(v), s, 51); GGC_WD(t, d51, v); }
    { int v; bits(&v, sizeof(v), s, 52); GGC_WD(t, d52, v); }
    { unsigned v; bits(&v, sizeof(v), s, 53); GGC_WD(t, d53, v); }
    { unsigned v; bits(&v, sizeof(v), s, 54); GGC_WD(t, d54, v); }
    { Big3 v; bits(&v, sizeof(v), s, 55); GGC_WD(t, d55, v); }
    { double v; bits(&v, sizeof(v), s, 56); GGC_WD(t, d56, v); }
    { int v; bits(&v, sizeof(v), s, 57); GGC_WD(t, d57, v); }
    { int v; bits(&v, sizeof(v), s, 58); GGC_WD(t, d58, v); }
    { char v; bits(&v, sizeof(v), s, 59); GGC_WD(t, d59, v); }
    { char v; bits(&v, sizeof(v), s, 60); GGC_WD(t, d60, v); }
    { char v; bits(&v, sizeof(v), s, 61); GGC_WD(t, d61, v); }
    { char v; bits(&v, sizeof(v), s, 62); GGC_WD(t, d62, v); }
    { char v; bits(&v, sizeof(v), s, 63); GGC_WD(t, d63, v); }
    { char v; bits(&v, sizeof(v), s, 64); GGC_WD(t, d64, v); }
    { char v; bits(&v, sizeof(v), s, 65); GGC_WD(t, d65, v); }
    { char v; bits(&v, sizeof(v), s, 66); GGC_WD(t, d66, v); }
    { Big3 v; bits(&v, sizeof(v), s, 67); GGC_WD(t, d67, v); }
    { Big17 v; bits(&v, sizeof(v), s, 68); GGC_WD(t, d68, v); }
    { long v; bits(&v, sizeof(v), s, 69); GGC_WD(t, d69, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 70); GGC_WD(t, d70, v); }
    { Big17 v; bits(&v, sizeof(v), s, 71); GGC_WD(t, d71, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 72); GGC_WD(t, d72, v); }
    { Big3 v; bits(&v, sizeof(v), s, 73); GGC_WD(t, d73, v); }
    { size_t v; bits(&v, sizeof(v), s, 74); GGC_WD(t, d74, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 75); GGC_WD(t, d75, v); }
    { size_t v; bits(&v, sizeof(v), s, 76); GGC_WD(t, d76, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 77); GGC_WD(t, d77, v); }
}
static int chkd_T32(void *o, uint64_t s) { T32 t = (T32) o; if (GGC_RD(t, id) != s) return -1;
    { long v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { float v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { float v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { double v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { GGC_voidp v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { char v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { char v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { char v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { char v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { char v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { char v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { char v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { char v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { char v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { char v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { char v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { char v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { char v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { char v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { char v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { char v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { unsigned v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { unsigned v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { size_t v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { Big17 v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { GGC_voidp v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { size_t v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { long v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { Big17 v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { unsigned v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { unsigned v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { size_t v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { float v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { float v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { short v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { short v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { short v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    { short v = GGC_RD(t, d37); if (!same(&v, sizeof(v), s, 37)) return 38; }
    { int v = GGC_RD(t, d38); if (!same(&v, sizeof(v), s, 38)) return 39; }
    { int v = GGC_RD(t, d39); if (!same(&v, sizeof(v), s, 39)) return 40; }
    { size_t v = GGC_RD(t, d40); if (!same(&v, sizeof(v), s, 40)) return 41; }
    { Big3 v = GGC_RD(t, d41); if (!same(&v, sizeof(v), s, 41)) return 42; }
    { char v = GGC_RD(t, d42); if (!same(&v, sizeof(v), s, 42)) return 43; }
    { char v = GGC_RD(t, d43); if (!same(&v, sizeof(v), s, 43)) return 44; }
    { char v = GGC_RD(t, d44); if (!same(&v, sizeof(v), s, 44)) return 45; }
    { char v = GGC_RD(t, d45); if (!same(&v, sizeof(v), s, 45)) return 46; }
    { char v = GGC_RD(t, d46); if (!same(&v, sizeof(v), s, 46)) return 47; }
    { char v = GGC_RD(t, d47); if (!same(&v, sizeof(v), s, 47)) return 48; }
    { char v = GGC_RD(t, d48); if (!same(&v, sizeof(v), s, 48)) return 49; }
    { char v = GGC_RD(t, d49); if (!same(&v, sizeof(v), s, 49)) return 50; }
    { Big17 v = GGC_RD(t, d50); if (!same(&v, sizeof(v), s, 50)) return 51; }
    { int v = GGC_RD(t, d51); if (!same(&v, sizeof(v), s, 51)) return 52; }
    { int v = GGC_RD(t, d52); if (!same(&v, sizeof(v), s, 52)) return 53; }
    { unsigned v = GGC_RD(t, d53); if (!same(&v, sizeof(v), s, 53)) return 54; }
    { unsigned v = GGC_RD(t, d54); if (!same(&v, sizeof(v), s, 54)) return 55; }
    { Big3 v = GGC_RD(t, d55); if (!same(&v, sizeof(v), s, 55)) return 56; }
    { double v = GGC_RD(t, d56); if (!same(&v, sizeof(v), s, 56)) return 57; }
    { int v = GGC_RD(t, d57); if (!same(&v, sizeof(v), s, 57)) return 58; }
    { int v = GGC_RD(t, d58); if (!same(&v, sizeof(v), s, 58)) return 59; }
    { char v = GGC_RD(t, d59); if (!same(&v, sizeof(v), s, 59)) return 60; }
    { char v = GGC_RD(t, d60); if (!same(&v, sizeof(v), s, 60)) return 61; }
    { char v = GGC_RD(t, d61); if (!same(&v, sizeof(v), s, 61)) return 62; }
    { char v = GGC_RD(t, d62); if (!same(&v, sizeof(v), s, 62)) return 63; }
    { char v = GGC_RD(t, d63); if (!same(&v, sizeof(v), s, 63)) return 64; }
    { char v = GGC_RD(t, d64); if (!same(&v, sizeof(v), s, 64)) return 65; }
    { char v = GGC_RD(t, d65); if (!same(&v, sizeof(v), s, 65)) return 66; }
    { char v = GGC_RD(t, d66); if (!same(&v, sizeof(v), s, 66)) return 67; }
    { Big3 v = GGC_RD(t, d67); if (!same(&v, sizeof(v), s, 67)) return 68; }
    { Big17 v = GGC_RD(t, d68); if (!same(&v, sizeof(v), s, 68)) return 69; }
    { long v = GGC_RD(t, d69); if (!same(&v, sizeof(v), s, 69)) return 70; }
    { GGC_voidp v = GGC_RD(t, d70); if (!same(&v, sizeof(v), s, 70)) return 71; }
    { Big17 v = GGC_RD(t, d71); if (!same(&v, sizeof(v), s, 71)) return 72; }
    { GGC_voidp v = GGC_RD(t, d72); if (!same(&v, sizeof(v), s, 72)) return 73; }
    { Big3 v = GGC_RD(t, d73); if (!same(&v, sizeof(v), s, 73)) return 74; }
    { size_t v = GGC_RD(t, d74); if (!same(&v, sizeof(v), s, 74)) return 75; }
    { GGC_voidp v = GGC_RD(t, d75); if (!same(&v, sizeof(v), s, 75)) return 76; }
    { size_t v = GGC_RD(t, d76); if (!same(&v, sizeof(v), s, 76)) return 77; }
    { GGC_voidp v = GGC_RD(t, d77); if (!same(&v, sizeof(v), s, 77)) return 78; }
    return 0; }
static int zero_T32(void *o) { T32 t = (T32) o;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T32[] = { 0 };

GGC_TYPE(T33)
    GGC_MDATA(size_t, id);
    GGC_MDATA(Big17, d0);
    GGC_MDATA(Tri, d1);
    GGC_MDATA(Tri, d2);
    GGC_MDATA(short, d3);
    GGC_MDATA(Big17, d4);
    GGC_MDATA(Big17, d5);
    GGC_MDATA(unsigned, d6);
    GGC_MDATA(unsigned, d7);
    GGC_MDATA(double, d8);
    GGC_MDATA(GGC_voidp, d9);
    GGC_MDATA(unsigned, d10);
    GGC_MDATA(unsigned, d11);
    GGC_MDATA(double, d12);
    GGC_MDATA(float, d13);
    GGC_MDATA(float, d14);
    GGC_MDATA(Big3, d15);
    GGC_MDATA(int, d16);
    GGC_MDATA(int, d17);
    GGC_MDATA(Tri, d18);
    GGC_MDATA(Tri, d19);
    GGC_MDATA(short, d20);
    GGC_MDATA(Big3, d21);
    GGC_MDATA(Big17, d22);
    GGC_MDATA(long, d23);
    GGC_MDATA(long, d24);
    GGC_MDATA(float, d25);
    GGC_MDATA(float, d26);
    GGC_MDATA(Tri, d27);
    GGC_MDATA(Tri, d28);
    GGC_MDATA(short, d29);
    GGC_MDATA(Big17, d30);
    GGC_MDATA(Big3, d31);
    GGC_MDATA(Big3, d32);
    GGC_MDATA(double, d33);
    GGC_MDATA(Big3, d34);
    GGC_MDATA(size_t, d35);
    GGC_MDATA(char, d36);
    GGC_MDATA(char, d37);
    GGC_MDATA(char, d38);
    GGC_MDATA(char, d39);
    GGC_MDATA(char, d40);
    GGC_MDATA(char, d41);
    GGC_MDATA(char, d42);
    GGC_MDATA(char, d43);
    GGC_MDATA(double, d44);
    GGC_MDATA(GGC_voidp, d45);
    GGC_MDATA(unsigned, d46);
    GGC_MDATA(unsigned, d47);
    GGC_MDATA(GGC_voidp, d48);
    GGC_MDATA(char, d49);
    GGC_MDATA(char, d50);
    GGC_MDATA(char, d51);
    GGC_MDATA(char, d52);
    GGC_MDATA(char, d53);
    GGC_MDATA(char, d54);
    GGC_MDATA(char, d55);
    GGC_MDATA(char, d56);
    GGC_MDATA(size_t, d57);
    GGC_MDATA(double, d58);
    GGC_MDATA(Tri, d59);
    GGC_MDATA(Tri, d60);
    GGC_MDATA(short, d61);
    GGC_MDATA(GGC_voidp, d62);
    GGC_MDATA(char, d63);
    GGC_MDATA(char, d64);
    GGC_MDATA(char, d65);
    GGC_MDATA(char, d66);
    GGC_MDATA(char, d67);
    GGC_MDATA(char, d68);
    GGC_MDATA(char, d69);
    GGC_MDATA(char, d70);
    GGC_MDATA(float, d71);
    GGC_MDATA(float, d72);
    GGC_MDATA(int, d73);
    GGC_MDATA(int, d74);
GGC_END_TYPE(T33,
    GGC_NO_PTRS
    )
static void *new_T33(void) { return GGC_NEW(T33); }
static void setp_T33(void *o, int k, Leaf v) { T33 t = (T33) o; (void) t; (void) v; switch (k) {
    default: vh_bug("member"); } }
static Leaf getp_T33(void *o, int k) { T33 t = (T33) o; (void) t; switch (k) {
    default: return NULL; } }
static void setd_T33(void *o, uint64_t s) { T33 t = (T33) o; { size_t v = s; GGC_WD(t, id, v); }
    { Big17 v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { Tri v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { Tri v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { short v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { Big17 v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { Big17 v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { unsigned v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { unsigned v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { double v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { unsigned v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { unsigned v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { double v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { float v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { float v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { Big3 v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { int v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { int v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { Tri v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { Tri v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { short v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { Big3 v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { Big17 v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { long v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { long v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { float v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { float v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { Tri v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { Tri v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { short v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { Big17 v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { Big3 v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { Big3 v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { double v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { Big3 v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { size_t v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { char v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
    { char v; bits(&v, sizeof(v), s, 37); GGC_WD(t, d37, v); }
    { char v; bits(&v, sizeof(v), s, 38); GGC_WD(t, d38, v); }
    { char v; bits(&v, sizeof(v), s, 39); GGC_WD(t, d39, v); }
    { char v; bits(&v, sizeof(v), s, 40); GGC_WD(t, d40, v); }
    { char v; bits(&v, sizeof(v), s, 41); GGC_WD(t, d41, v); }
    { char v; bits(&v, sizeof(v), s, 42); GGC_WD(t, d42, v); }
    { char v; bits(&v, sizeof(v), s, 43); GGC_WD(t, d43, v); }
    { double v; bits(&v, sizeof(v), s, 44); GGC_WD(t, d44, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 45); GGC_WD(t, d45, v); }
    { unsigned v; bits(&v, sizeof(v), s, 46); GGC_WD(t, d46, v); }
    { unsigned v; bits(&v, sizeof(v), s, 47); GGC_WD(t, d47, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 48); GGC_WD(t, d48, v); }
    { char v; bits(&v, sizeof(v), s, 49); GGC_WD(t, d49, v); }
    { char v; bits(&v, sizeof(v), s, 50); GGC_WD(t, d50, v); }
    { char v; bits(&v, sizeof(v), s, 51); GGC_WD(t, d51, v); }
    { char v; bits(&v, sizeof(v), s, 52); GGC_WD(t, d52, v); }
    { char v; bits(&v, sizeof(v), s, 53); GGC_WD(t, d53, v); }
    { char v; bits(&v, sizeof(v), s, 54); GGC_WD(t, d54, v); }
    { char v; bits(&v, sizeof(v), s, 55); GGC_WD(t, d55, v); }
    { char v; bits(&v, sizeof(v), s, 56); GGC_WD(t, d56, v); }
    { size_t v; bits(&v, sizeof(v), s, 57); GGC_WD(t, d57, v); }
    { double v; bits(&v, sizeof(v), s, 58); GGC_WD(t, d58, v); }
    { Tri v; bits(&v, sizeof(v), s, 59); GGC_WD(t, d59, v); }
    { Tri v; bits(&v, sizeof(v), s, 60); GGC_WD(t, d60, v); }
    { short v; bits(&v, sizeof(v), s, 61); GGC_WD(t, d61, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 62); GGC_WD(t, d62, v); }
    { char v; bits(&v, sizeof(v), s, 63); GGC_WD(t, d63, v); }
    { char v; bits(&v, sizeof(v), s, 64); GGC_WD(t, d64, v); }
    { char v; bits(&v, sizeof(v), s, 65); GGC_WD(t, d65, v); }
    { char v; bits(&v, sizeof(v), s, 66); GGC_WD(t, d66, v); }
    { char v; bits(&v, sizeof(v), s, 67); GGC_WD(t, d67, v); }
    { char v; bits(&v, sizeof(v), s, 68); GGC_WD(t, d68, v); }
    { char v; bits(&v, sizeof(v), s, 69); GGC_WD(t, d69, v); }
    { char v; bits(&v, sizeof(v), s, 70); GGC_WD(t, d70, v); }
    { float v; bits(&v, sizeof(v), s, 71); GGC_WD(t, d71, v); }
    { float v; bits(&v, sizeof(v), s, 72); GGC_WD(t, d72, v); }
    { int v; bits(&v, sizeof(v), s, 73); GGC_WD(t, d73, v); }
    { int v; bits(&v, sizeof(v), s, 74); GGC_WD(t, d74, v); }
}
static int chkd_T33(void *o, uint64_t s) { T33 t = (T33) o; if (GGC_RD(t, id) != s) return -1;
    { Big17 v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { Tri v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { Tri v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { short v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { Big17 v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { Big17 v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { unsigned v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { unsigned v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { double v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { GGC_voidp v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { unsigned v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { unsigned v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { double v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { float v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { float v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { Big3 v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { int v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { int v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { Tri v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { Tri v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { short v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { Big3 v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { Big17 v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { long v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { long v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { float v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { float v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { Tri v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { Tri v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { short v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { Big17 v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { Big3 v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { Big3 v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { double v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { Big3 v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { size_t v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { char v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    { char v = GGC_RD(t, d37); if (!same(&v, sizeof(v), s, 37)) return 38; }
    { char v = GGC_RD(t, d38); if (!same(&v, sizeof(v), s, 38)) return 39; }
    { char v = GGC_RD(t, d39); if (!same(&v, sizeof(v), s, 39)) return 40; }
    { char v = GGC_RD(t, d40); if (!same(&v, sizeof(v), s, 40)) return 41; }
    { char v = GGC_RD(t, d41); if (!same(&v, sizeof(v), s, 41)) return 42; }
    { char v = GGC_RD(t, d42); if (!same(&v, sizeof(v), s, 42)) return 43; }
    { char v = GGC_RD(t, d43); if (!same(&v, sizeof(v), s, 43)) return 44; }
    { double v = GGC_RD(t, d44); if (!same(&v, sizeof(v), s, 44)) return 45; }
    { GGC_voidp v = GGC_RD(t, d45); if (!same(&v, sizeof(v), s, 45)) return 46; }
    { unsigned v = GGC_RD(t, d46); if (!same(&v, sizeof(v), s, 46)) return 47; }
    { unsigned v = GGC_RD(t, d47); if (!same(&v, sizeof(v), s, 47)) return 48; }
    { GGC_voidp v = GGC_RD(t, d48); if (!same(&v, sizeof(v), s, 48)) return 49; }
    { char v = GGC_RD(t, d49); if (!same(&v, sizeof(v), s, 49)) return 50; }
    { char v = GGC_RD(t, d50); if (!same(&v, sizeof(v), s, 50)) return 51; }
    { char v = GGC_RD(t, d51); if (!same(&v, sizeof(v), s, 51)) return 52; }
    { char v = GGC_RD(t, d52); if (!same(&v, sizeof(v), s, 52)) return 53; }
    { char v = GGC_RD(t, d53); if (!same(&v, sizeof(v), s, 53)) return 54; }
    { char v = GGC_RD(t, d54); if (!same(&v, sizeof(v), s, 54)) return 55; }
    { char v = GGC_RD(t, d55); if (!same(&v, sizeof(v), s, 55)) return 56; }
    { char v = GGC_RD(t, d56); if (!same(&v, sizeof(v), s, 56)) return 57; }
    { size_t v = GGC_RD(t, d57); if (!same(&v, sizeof(v), s, 57)) return 58; }
    { double v = GGC_RD(t, d58); if (!same(&v, sizeof(v), s, 58)) return 59; }
    { Tri v = GGC_RD(t, d59); if (!same(&v, sizeof(v), s, 59)) return 60; }
    { Tri v = GGC_RD(t, d60); if (!same(&v, sizeof(v), s, 60)) return 61; }
    { short v = GGC_RD(t, d61); if (!same(&v, sizeof(v), s, 61)) return 62; }
    { GGC_voidp v = GGC_RD(t, d62); if (!same(&v, sizeof(v), s, 62)) return 63; }
    { char v = GGC_RD(t, d63); if (!same(&v, sizeof(v), s, 63)) return 64; }
    { char v = GGC_RD(t, d64); if (!same(&v, sizeof(v), s, 64)) return 65; }
    { char v = GGC_RD(t, d65); if (!same(&v, sizeof(v), s, 65)) return 66; }
    { char v = GGC_RD(t, d66); if (!same(&v, sizeof(v), s, 66)) return 67; }
    { char v = GGC_RD(t, d67); if (!same(&v, sizeof(v), s, 67)) return 68; }
    { char v = GGC_RD(t, d68); if (!same(&v, sizeof(v), s, 68)) return 69; }
    { char v = GGC_RD(t, d69); if (!same(&v, sizeof(v), s, 69)) return 70; }
    { char v = GGC_RD(t, d70); if (!same(&v, sizeof(v), s, 70)) return 71; }
    { float v = GGC_RD(t, d71); if (!same(&v, sizeof(v), s, 71)) return 72; }
    { float v = GGC_RD(t, d72); if (!same(&v, sizeof(v), s, 72)) return 73; }
    { int v = GGC_RD(t, d73); if (!same(&v, sizeof(v), s, 73)) return 74; }
    { int v = GGC_RD(t, d74); if (!same(&v, sizeof(v), s, 74)) return 75; }
    return 0; }
static int zero_T33(void *o) { T33 t = (T33) o;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T33[] = { 0 };

GGC_TYPE(T34)
    GGC_MDATA(size_t, id);
    GGC_MDATA(Big17, d0);
    GGC_MDATA(unsigned, d1);
    GGC_MDATA(unsigned, d2);
    GGC_MDATA(Big3, d3);
    GGC_MDATA(float, d4);
    GGC_MDATA(float, d5);
    GGC_MDATA(long, d6);
    GGC_MDATA(GGC_voidp, d7);
    GGC_MDATA(unsigned, d8);
    GGC_MDATA(unsigned, d9);
    GGC_MDATA(long, d10);
    GGC_MDATA(float, d11);
    GGC_MDATA(float, d12);
    GGC_MDATA(char, d13);
    GGC_MDATA(char, d14);
    GGC_MDATA(char, d15);
    GGC_MDATA(char, d16);
    GGC_MDATA(char, d17);
    GGC_MDATA(char, d18);
    GGC_MDATA(char, d19);
    GGC_MDATA(char, d20);
    GGC_MDATA(long, d21);
    GGC_MDATA(GGC_voidp, d22);
    GGC_MDATA(short, d23);
    GGC_MDATA(short, d24);
    GGC_MDATA(short, d25);
    GGC_MDATA(short, d26);
    GGC_MDATA(size_t, d27);
    GGC_MDATA(unsigned, d28);
    GGC_MDATA(unsigned, d29);
    GGC_MDATA(Tri, d30);
    GGC_MDATA(Tri, d31);
    GGC_MDATA(short, d32);
    GGC_MDATA(double, d33);
    GGC_MDATA(Big17, d34);
    GGC_MDATA(double, d35);
    GGC_MDATA(double, d36);
    GGC_MDATA(short, d37);
    GGC_MDATA(short, d38);
    GGC_MDATA(short, d39);
    GGC_MDATA(short, d40);
    GGC_MDATA(int, d41);
    GGC_MDATA(int, d42);
    GGC_MDATA(long, d43);
    GGC_MDATA(Tri, d44);
    GGC_MDATA(Tri, d45);
    GGC_MDATA(short, d46);
    GGC_MDATA(Tri, d47);
    GGC_MDATA(Tri, d48);
    GGC_MDATA(short, d49);
    GGC_MDATA(long, d50);
    GGC_MDATA(size_t, d51);
    GGC_MDATA(int, d52);
    GGC_MDATA(int, d53);
    GGC_MDATA(size_t, d54);
    GGC_MDATA(Big17, d55);
    GGC_MDATA(long, d56);
    GGC_MDATA(double, d57);
    GGC_MDATA(long, d58);
    GGC_MDATA(Big17, d59);
    GGC_MDATA(Big3, d60);
    GGC_MDATA(short, d61);
    GGC_MDATA(short, d62);
    GGC_MDATA(short, d63);
    GGC_MDATA(short, d64);
    GGC_MDATA(Big3, d65);
    GGC_MDATA(Big3, d66);
    GGC_MDATA(size_t, d67);
    GGC_MDATA(Big17, d68);
    GGC_MDATA(double, d69);
GGC_END_TYPE(T34,
    GGC_NO_PTRS
    )
static void *new_T34(void) { return GGC_NEW(T34); }
static void setp_T34(void *o, int k, Leaf v) { T34 t = (T34) o; (void) t; (void) v; switch (k) {
    default: vh_bug("member"); } }
static Leaf getp_T34(void *o, int k) { T34 t = (T34) o; (void) t; switch (k) {
    default: return NULL; } }
static void setd_T34(void *o, uint64_t s) { T34 t = (T34) o; { size_t v = s; GGC_WD(t, id, v); }
    { Big17 v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { unsigned v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { unsigned v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { Big3 v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { float v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { float v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { long v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { unsigned v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { unsigned v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { long v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { float v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { float v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { char v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { char v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { char v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { char v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { char v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { char v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { char v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { char v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { long v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { short v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { short v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { short v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { short v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { size_t v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { unsigned v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { unsigned v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { Tri v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { Tri v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { short v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { double v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { Big17 v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { double v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { double v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
    { short v; bits(&v, sizeof(v), s, 37); GGC_WD(t, d37, v); }
    { short v; bits(&v, sizeof(v), s, 38); GGC_WD(t, d38, v); }
    { short v; bits(&v, sizeof(v), s, 39); GGC_WD(t, d39, v); }
    { short v; bits(&v, sizeof(v), s, 40); GGC_WD(t, d40, v); }
    { int v; bits(&v, sizeof(v), s, 41); GGC_WD(t, d41, v); }
    { int v; bits(&v, sizeof(v), s, 42); GGC_WD(t, d42, v); }
    { long v; bits(&v, sizeof(v), s, 43); GGC_WD(t, d43, v); }
    { Tri v; bits(&v, sizeof(v), s, 44); GGC_WD(t, d44, v); }
    { Tri v; bits(&v, sizeof(v), s, 45); GGC_WD(t, d45, v); }
    { short v; bits(&v, sizeof(v), s, 46); GGC_WD(t, d46, v); }
    { Tri v; bits(&v, sizeof(v), s, 47); GGC_WD(t, d47, v); }
    { Tri v; bits(&v, sizeof(v), s, 48); GGC_WD(t, d48, v); }
    { short v; bits(&v, sizeof(v), s, 49); GGC_WD(t, d49, v); }
    { long v; bits(&v, sizeof(v), s, 50); GGC_WD(t, d50, v); }
    { size_t v; bits(&v, sizeof(v), s, 51); GGC_WD(t, d51, v); }
    { int v; bits(&v, sizeof(v), s, 52); GGC_WD(t, d52, v); }
    { int v; bits(&v, sizeof(v), s, 53); GGC_WD(t, d53, v); }
    { size_t v; bits(&v, sizeof(v), s, 54); GGC_WD(t, d54, v); }
    { Big17 v; bits(&v, sizeof(v), s, 55); GGC_WD(t, d55, v); }
    { long v; bits(&v, sizeof(v), s, 56); GGC_WD(t, d56, v); }
    { double v; bits(&v, sizeof(v), s, 57); GGC_WD(t, d57, v); }
    { long v; bits(&v, sizeof(v), s, 58); GGC_WD(t, d58, v); }
    { Big17 v; bits(&v, sizeof(v), s, 59); GGC_WD(t, d59, v); }
    { Big3 v; bits(&v, sizeof(v), s, 60); GGC_WD(t, d60, v); }
    { short v; bits(&v, sizeof(v), s, 61); GGC_WD(t, d61, v); }
    { short v; bits(&v, sizeof(v), s, 62); GGC_WD(t, d62, v); }
    { short v; bits(&v, sizeof(v), s, 63); GGC_WD(t, d63, v); }
    { short v; bits(&v, sizeof(v), s, 64); GGC_WD(t, d64, v); }
    { Big3 v; bits(&v, sizeof(v), s, 65); GGC_WD(t, d65, v); }
    { Big3 v; bits(&v, sizeof(v), s, 66); GGC_WD(t, d66, v); }
    { size_t v; bits(&v, sizeof(v), s, 67); GGC_WD(t, d67, v); }
    { Big17 v; bits(&v, sizeof(v), s, 68); GGC_WD(t, d68, v); }
    { double v; bits(&v, sizeof(v), s, 69); GGC_WD(t, d69, v); }
}
static int chkd_T34(void *o, uint64_t s) { T34 t = (T34) o; if (GGC_RD(t, id) != s) return -1;
    { Big17 v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { unsigned v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { unsigned v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { Big3 v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { float v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { float v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { long v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { GGC_voidp v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { unsigned v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { unsigned v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { long v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { float v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { float v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { char v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { char v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { char v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { char v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { char v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { char v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { char v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { char v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { long v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { GGC_voidp v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { short v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { short v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { short v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { short v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { size_t v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { unsigned v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { unsigned v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { Tri v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { Tri v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { short v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { double v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { Big17 v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { double v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { double v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    { short v = GGC_RD(t, d37); if (!same(&v, sizeof(v), s, 37)) return 38; }
    { short v = GGC_RD(t, d38); if (!same(&v, sizeof(v), s, 38)) return 39; }
    { short v = GGC_RD(t, d39); if (!same(&v, sizeof(v), s, 39)) return 40; }
    { short v = GGC_RD(t, d40); if (!same(&v, sizeof(v), s, 40)) return 41; }
    { int v = GGC_RD(t, d41); if (!same(&v, sizeof(v), s, 41)) return 42; }
    { int v = GGC_RD(t, d42); if (!same(&v, sizeof(v), s, 42)) return 43; }
    { long v = GGC_RD(t, d43); if (!same(&v, sizeof(v), s, 43)) return 44; }
    { Tri v = GGC_RD(t, d44); if (!same(&v, sizeof(v), s, 44)) return 45; }
    { Tri v = GGC_RD(t, d45); if (!same(&v, sizeof(v), s, 45)) return 46; }
    { short v = GGC_RD(t, d46); if (!same(&v, sizeof(v), s, 46)) return 47; }
    { Tri v = GGC_RD(t, d47); if (!same(&v, sizeof(v), s, 47)) return 48; }
    { Tri v = GGC_RD(t, d48); if (!same(&v, sizeof(v), s, 48)) return 49; }
    { short v = GGC_RD(t, d49); if (!same(&v, sizeof(v), s, 49)) return 50; }
    { long v = GGC_RD(t, d50); if (!same(&v, sizeof(v), s, 50)) return 51; }
    { size_t v = GGC_RD(t, d51); if (!same(&v, sizeof(v), s, 51)) return 52; }
    { int v = GGC_RD(t, d52); if (!same(&v, sizeof(v), s, 52)) return 53; }
    { int v = GGC_RD(t, d53); if (!same(&v, sizeof(v), s, 53)) return 54; }
    { size_t v = GGC_RD(t, d54); if (!same(&v, sizeof(v), s, 54)) return 55; }
    { Big17 v = GGC_RD(t, d55); if (!same(&v, sizeof(v), s, 55)) return 56; }
    { long v = GGC_RD(t, d56); if (!same(&v, sizeof(v), s, 56)) return 57; }
    { double v = GGC_RD(t, d57); if (!same(&v, sizeof(v), s, 57)) return 58; }
    { long v = GGC_RD(t, d58); if (!same(&v, sizeof(v), s, 58)) return 59; }
    { Big17 v = GGC_RD(t, d59); if (!same(&v, sizeof(v), s, 59)) return 60; }
    { Big3 v = GGC_RD(t, d60); if (!same(&v, sizeof(v), s, 60)) return 61; }
    { short v = GGC_RD(t, d61); if (!same(&v, sizeof(v), s, 61)) return 62; }
    { short v = GGC_RD(t, d62); if (!same(&v, sizeof(v), s, 62)) return 63; }
    { short v = GGC_RD(t, d63); if (!same(&v, sizeof(v), s, 63)) return 64; }
    { short v = GGC_RD(t, d64); if (!same(&v, sizeof(v), s, 64)) return 65; }
    { Big3 v = GGC_RD(t, d65); if (!same(&v, sizeof(v), s, 65)) return 66; }
    { Big3 v = GGC_RD(t, d66); if (!same(&v, sizeof(v), s, 66)) return 67; }
    { size_t v = GGC_RD(t, d67); if (!same(&v, sizeof(v), s, 67)) return 68; }
    { Big17 v = GGC_RD(t, d68); if (!same(&v, sizeof(v), s, 68)) return 69; }
    { double v = GGC_RD(t, d69); if (!same(&v, sizeof(v), s, 69)) return 70; }
    return 0; }
static int zero_T34(void *o) { T34 t = (T34) o;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T34[] = { 0 };

GGC_TYPE(T35)
    GGC_MDATA(size_t, id);
    GGC_MDATA(GGC_voidp, d0);
    GGC_MDATA(double, d1);
    GGC_MDATA(short, d2);
    GGC_MDATA(short, d3);
    GGC_MDATA(short, d4);
    GGC_MDATA(short, d5);
    GGC_MDATA(GGC_voidp, d6);
    GGC_MDATA(double, d7);
    GGC_MDATA(double, d8);
    GGC_MDATA(GGC_voidp, d9);
    GGC_MDATA(size_t, d10);
    GGC_MDATA(GGC_voidp, d11);
    GGC_MDATA(Tri, d12);
    GGC_MDATA(Tri, d13);
    GGC_MDATA(short, d14);
    GGC_MDATA(short, d15);
    GGC_MDATA(short, d16);
    GGC_MDATA(short, d17);
    GGC_MDATA(short, d18);
    GGC_MDATA(Big17, d19);
    GGC_MDATA(GGC_voidp, d20);
    GGC_MDATA(double, d21);
    GGC_MDATA(GGC_voidp, d22);
    GGC_MDATA(long, d23);
    GGC_MDATA(double, d24);
    GGC_MDATA(double, d25);
    GGC_MDATA(Big3, d26);
    GGC_MDATA(double, d27);
    GGC_MDATA(GGC_voidp, d28);
    GGC_MDATA(int, d29);
    GGC_MDATA(int, d30);
    GGC_MDATA(Big17, d31);
    GGC_MDATA(int, d32);
    GGC_MDATA(int, d33);
    GGC_MDATA(float, d34);
    GGC_MDATA(float, d35);
    GGC_MDATA(Big17, d36);
    GGC_MDATA(Tri, d37);
    GGC_MDATA(Tri, d38);
    GGC_MDATA(short, d39);
    GGC_MDATA(double, d40);
    GGC_MDATA(Big17, d41);
    GGC_MDATA(int, d42);
    GGC_MDATA(int, d43);
    GGC_MDATA(float, d44);
    GGC_MDATA(float, d45);
    GGC_MDATA(GGC_voidp, d46);
    GGC_MDATA(short, d47);
    GGC_MDATA(short, d48);
    GGC_MDATA(short, d49);
    GGC_MDATA(short, d50);
    GGC_MDATA(double, d51);
    GGC_MDATA(float, d52);
    GGC_MDATA(float, d53);
    GGC_MDATA(char, d54);
    GGC_MDATA(char, d55);
    GGC_MDATA(char, d56);
    GGC_MDATA(char, d57);
    GGC_MDATA(char, d58);
    GGC_MDATA(char, d59);
    GGC_MDATA(char, d60);
    GGC_MDATA(char, d61);
    GGC_MDATA(double, d62);
    GGC_MDATA(double, d63);
    GGC_MDATA(Big3, d64);
    GGC_MDATA(char, d65);
    GGC_MDATA(char, d66);
    GGC_MDATA(char, d67);
    GGC_MDATA(char, d68);
    GGC_MDATA(char, d69);
    GGC_MDATA(char, d70);
    GGC_MDATA(char, d71);
    GGC_MDATA(char, d72);
    GGC_MDATA(float, d73);
    GGC_MDATA(float, d74);
    GGC_MDATA(Big3, d75);
    GGC_MDATA(int, d76);
    GGC_MDATA(int, d77);
    GGC_MDATA(float, d78);
    GGC_MDATA(float, d79);
    GGC_MDATA(GGC_voidp, d80);
    GGC_MDATA(long, d81);
    GGC_MDATA(size_t, d82);
    GGC_MDATA(GGC_voidp, d83);
    GGC_MDATA(char, d84);
    GGC_MDATA(char, d85);
    GGC_MDATA(char, d86);
    GGC_MDATA(char, d87);
    GGC_MDATA(char, d88);
    GGC_MDATA(char, d89);
    GGC_MDATA(char, d90);
    GGC_MDATA(char, d91);
    GGC_MDATA(float, d92);
    GGC_MDATA(float, d93);
    GGC_MDATA(float, d94);
    GGC_MDATA(float, d95);
    GGC_MDATA(long, d96);
    GGC_MDATA(Big3, d97);
    GGC_MDATA(Big17, d98);
    GGC_MDATA(GGC_voidp, d99);
    GGC_MDATA(Big17, d100);
    GGC_MDATA(char, d101);
    GGC_MDATA(char, d102);
    GGC_MDATA(char, d103);
    GGC_MDATA(char, d104);
    GGC_MDATA(char, d105);
    GGC_MDATA(char, d106);
    GGC_MDATA(char, d107);
    GGC_MDATA(char, d108);
    GGC_MDATA(float, d109);
    GGC_MDATA(float, d110);
    GGC_MDATA(Big3, d111);
    GGC_MDATA(int, d112);
    GGC_MDATA(int, d113);
    GGC_MDATA(double, d114);
    GGC_MDATA(Big17, d115);
    GGC_MDATA(char, d116);
    GGC_MDATA(char, d117);
    GGC_MDATA(char, d118);
    GGC_MDATA(char, d119);
    GGC_MDATA(char, d120);
    GGC_MDATA(char, d121);
    GGC_MDATA(char, d122);
    GGC_MDATA(char, d123);
    GGC_MDATA(size_t, d124);
    GGC_MDATA(char, d125);
    GGC_MDATA(char, d126);
    GGC_MDATA(char, d127);
    GGC_MDATA(char, d128);
    GGC_MDATA(char, d129);
    GGC_MDATA(char, d130);
    GGC_MDATA(char, d131);
    GGC_MDATA(char, d132);
    GGC_MDATA(size_t, d133);
    GGC_MDATA(long, d134);
    GGC_MDATA(float, d135);
    GGC_MDATA(float, d136);
    GGC_MDATA(size_t, d137);
    GGC_MDATA(long, d138);
    GGC_MDATA(char, d139);
    GGC_MDATA(char, d140);
    GGC_MDATA(char, d141);
    GGC_MDATA(char, d142);
    GGC_MDATA(char, d143);
    GGC_MDATA(char, d144);
    GGC_MDATA(char, d145);
    GGC_MDATA(char, d146);
    GGC_MDATA(short, d147);
    GGC_MDATA(short, d148);
    GGC_MDATA(short, d149);
    GGC_MDATA(short, d150);
    GGC_MDATA(long, d151);
    GGC_MDATA(double, d152);
    GGC_MDATA(long, d153);
    GGC_MDATA(GGC_voidp, d154);
    GGC_MDATA(short, d155);
    GGC_MDATA(short, d156);
    GGC_MDATA(short, d157);
    GGC_MDATA(short, d158);
    GGC_MDATA(long, d159);
GGC_END_TYPE(T35,
    GGC_NO_PTRS
    )
static void *new_T35(void) { return GGC_NEW(T35); }
static void setp_T35(void *o, int k, Leaf v) { T35 t = (T35) o; (void) t; (void) v; switch (k) {
    default: vh_bug("member"); } }
static Leaf getp_T35(void *o, int k) { T35 t = (T35) o; (void) t; switch (k) {
    default: return NULL; } }
static void setd_T35(void *o, uint64_t s) { T35 t = (T35) o; { size_t v = s; GGC_WD(t, id, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { double v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { short v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { short v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { short v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { short v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { double v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { double v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { size_t v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { Tri v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { Tri v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { short v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { short v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { short v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { short v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { short v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { Big17 v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { double v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { long v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { double v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { double v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { Big3 v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { double v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { int v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { int v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { Big17 v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { int v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { int v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { float v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { float v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { Big17 v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
    { Tri v; bits(&v, sizeof(v), s, 37); GGC_WD(t, d37, v); }
    { Tri v; bits(&v, sizeof(v), s, 38); GGC_WD(t, d38, v); }
    { short v; bits(&v, sizeof(v), s, 39); GGC_WD(t, d39, v); }
    { double v; bits(&v, sizeof(v), s, 40); GGC_WD(t, d40, v); }
    { Big17 v; bits(&v, sizeof(v), s, 41); GGC_WD(t, d41, v); }
    { int v; bits(&v, sizeof(v), s, 42); GGC_WD(t, d42, v); }
    { int v; bits(&v, sizeof(v), s, 43); GGC_WD(t, d43, v); }
    { float v; bits(&v, sizeof(v), s, 44); GGC_WD(t, d44, v); }
    { float v; bits(&v, sizeof(v), s, 45); GGC_WD(t, d45, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 46); GGC_WD(t, d46, v); }
    { short v; bits(&v, sizeof(v), s, 47); GGC_WD(t, d47, v); }
    { short v; bits(&v, sizeof(v), s, 48); GGC_WD(t, d48, v); }
    { short v; bits(&v, sizeof(v), s, 49); GGC_WD(t, d49, v); }
    { short v; bits(&v, sizeof(v), s, 50); GGC_WD(t, d50, v); }
    { double v; bits(&v, sizeof(v), s, 51); GGC_WD(t, d51, v); }
    { float v; bits(&v, sizeof(v), s, 52); GGC_WD(t, d52, v); }
    { float v; bits(&v, sizeof(v), s, 53); GGC_WD(t, d53, v); }
    { char v; bits(&v, sizeof(v), s, 54); GGC_WD(t, d54, v); }
    { char v; bits(&v, sizeof(v), s, 55); GGC_WD(t, d55, v); }
    { char v; bits(&v, sizeof(v), s, 56); GGC_WD(t, d56, v); }
    { char v; bits(&v, sizeof(v), s, 57); GGC_WD(t, d57, v); }
    { char v; bits(&v, sizeof(v), s, 58); GGC_WD(t, d58, v); }
    { char v; bits(&v, sizeof(v), s, 59); GGC_WD(t, d59, v); }
    { char v; bits(&v, sizeof(v), s, 60); GGC_WD(t, d60, v); }
    { char v; bits(&v, sizeof(v), s, 61); GGC_WD(t, d61, v); }
    { double v; bits(&v, sizeof(v), s, 62); GGC_WD(t, d62, v); }
    { double v; bits(&v, sizeof(v), s, 63); GGC_WD(t, d63, v); }
    { Big3 v; bits(&v, sizeof(v), s, 64); GGC_WD(t, d64, v); }
    { char v; bits(&v, sizeof(v), s, 65); GGC_WD(t, d65, v); }
    { char v; bits(&v, sizeof(v), s, 66); GGC_WD(t, d66, v); }
    { char v; bits(&v, sizeof(v), s, 67); GGC_WD(t, d67, v); }
    { char v; bits(&v, sizeof(v), s, 68); GGC_WD(t, d68, v); }
    { char v; bits(&v, sizeof(v), s, 69); GGC_WD(t, d69, v); }
    { char v; bits(&v, sizeof(v), s, 70); GGC_WD(t, d70, v); }
    { char v; bits(&v, sizeof(v), s, 71); GGC_WD(t, d71, v); }
    { char v; bits(&v, sizeof(v), s, 72); GGC_WD(t, d72, v); }
    { float v; bits(&v, sizeof(v), s, 73); GGC_WD(t, d73, v); }
    { float v; bits(&v, sizeof(v), s, 74); GGC_WD(t, d74, v); }
    { Big3 v; bits(&v, sizeof(v), s, 75); GGC_WD(t, d75, v); }
    { int v; bits(&v, sizeof(v), s, 76); GGC_WD(t, d76, v); }
    { int v; bits(&v, sizeof(v), s, 77); GGC_WD(t, d77, v); }
    { float v; bits(&v, sizeof(v), s, 78); GGC_WD(t, d78, v); }
    { float v; bits(&v, sizeof(v), s, 79); GGC_WD(t, d79, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 80); GGC_WD(t, d80, v); }
    { long v; bits(&v, sizeof(v), s, 81); GGC_WD(t, d81, v); }
    { size_t v; bits(&v, sizeof(v), s, 82); GGC_WD(t, d82, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 83); GGC_WD(t, d83, v); }
    { char v; bits(&v, sizeof(v), s, 84); GGC_WD(t, d84, v); }
    { char v; bits(&v, sizeof(v), s, 85); GGC_WD(t, d85, v); }
    { char v; bits(&v, sizeof(v), s, 86); GGC_WD(t, d86, v); }
    { char v; bits(&v, sizeof(v), s, 87); GGC_WD(t, d87, v); }
    { char v; bits(&v, sizeof(v), s, 88); GGC_WD(t, d88, v); }
    { char v; bits(&v, sizeof(v), s, 89); GGC_WD(t, d89, v); }
    { char v; bits(&v, sizeof(v), s, 90); GGC_WD(t, d90, v); }
    { char v; bits(&v, sizeof(v), s, 91); GGC_WD(t, d91, v); }
    { float v; bits(&v, sizeof(v), s, 92); GGC_WD(t, d92, v); }
    { float v; bits(&v, sizeof(v), s, 93); GGC_WD(t, d93, v); }
    { float v; bits(&v, sizeof(v), s, 94); GGC_WD(t, d94, v); }
    { float v; bits(&v, sizeof(v), s, 95); GGC_WD(t, d95, v); }
    { long v; bits(&v, sizeof(v), s, 96); GGC_WD(t, d96, v); }
    { Big3 v; bits(&v, sizeof(v), s, 97); GGC_WD(t, d97, v); }
    { Big17 v; bits(&v, sizeof(v), s, 98); GGC_WD(t, d98, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 99); GGC_WD(t, d99, v); }
    { Big17 v; bits(&v, sizeof(v), s, 100); GGC_WD(t, d100, v); }
    { char v; bits(&v, sizeof(v), s, 101); GGC_WD(t, d101, v); }
    { char v; bits(&v, sizeof(v), s, 102); GGC_WD(t, d102, v); }
    { char v; bits(&v, sizeof(v), s, 103); GGC_WD(t, d103, v); }
    { char v; bits(&v, sizeof(v), s, 104); GGC_WD(t, d104, v); }
    { char v; bits(&v, sizeof(v), s, 105); GGC_WD(t, d105, v); }
    { char v; bits(&v, sizeof(v), s, 106); GGC_WD(t, d106, v); }
    { char v; bits(&v, sizeof(v), s, 107); GGC_WD(t, d107, v); }
    { char v; bits(&v, sizeof(v), s, 108); GGC_WD(t, d108, v); }
    { float v; bits(&v, sizeof(v), s, 109); GGC_WD(t, d109, v); }
    { float v; bits(&v, sizeof(v), s, 110); GGC_WD(t, d110, v); }
    { Big3 v; bits(&v, sizeof(v), s, 111); GGC_WD(t, d111, v); }
    { int v; bits(&v, sizeof(v), s, 112); GGC_WD(t, d112, v); }
    { int v; bits(&v, sizeof(v), s, 113); GGC_WD(t, d113, v); }
    { double v; bits(&v, sizeof(v), s, 114); GGC_WD(t, d114, v); }
    { Big17 v; bits(&v, sizeof(v), s, 115); GGC_WD(t, d115, v); }
    { char v; bits(&v, sizeof(v), s, 116); GGC_WD(t, d116, v); }
    { char v; bits(&v, sizeof(v), s, 117); GGC_WD(t, d117, v); }
    { char v; bits(&v, sizeof(v), s, 118); GGC_WD(t, d118, v); }
    { char v; bits(&v, sizeof(v), s, 119); GGC_WD(t, d119, v); }
    { char v; bits(&v, sizeof(v), s, 120); GGC_WD(t, d120, v); }
    { char v; bits(&v, sizeof(v), s, 121); GGC_WD(t, d121, v); }
    { char v; bits(&v, sizeof(v), s, 122); GGC_WD(t, d122, v); }
    { char v; bits(&v, sizeof(v), s, 123); GGC_WD(t, d123, v); }
    { size_t v; bits(&v, sizeof(v), s, 124); GGC_WD(t, d124, v); }
    { char v; bits(&v, sizeof(v), s, 125); GGC_WD(t, d125, v); }
    { char v; bits(&v, sizeof(v), s, 126); GGC_WD(t, d126, v); }
    { char v; bits(&v, sizeof(v), s, 127); GGC_WD(t, d127, v); }
    { char v; bits(&v, sizeof(v), s, 128); GGC_WD(t, d128, v); }
    { char v; bits(&v, sizeof(v), s, 129); GGC_WD(t, d129, v); }
    { char v; bits(&v, sizeof(v), s, 130); GGC_WD(t, d130, v); }
    { char v; bits(&v, sizeof(v), s, 131); GGC_WD(t, d131, v); }
    { char v; bits(&v, sizeof(v), s, 132); GGC_WD(t, d132, v); }
    { size_t v; bits(&v, sizeof(v), s, 133); GGC_WD(t, d133, v); }
    { long v; bits(&v, sizeof(v), s, 134); GGC_WD(t, d134, v); }
    { float v; bits(&v, sizeof(v), s, 135); GGC_WD(t, d135, v); }
    { float v; bits(&v, sizeof(v), s, 136); GGC_WD(t, d136, v); }
    { size_t v; bits(&v, sizeof(v), s, 137); GGC_WD(t, d137, v); }
    { long v; bits(&v, sizeof(v), s, 138); GGC_WD(t, d138, v); }
    { char v; bits(&v, sizeof(v), s, 139); GGC_WD(t, d139, v); }
    { char v; bits(&v, sizeof(v), s, 140); GGC_WD(t, d140, v); }
    { char v; bits(&v, sizeof(v), s, 141); GGC_WD(t, d141, v); }
    { char v; bits(&v, sizeof(v), s, 142); GGC_WD(t, d142, v); }
    { char v; bits(&v, sizeof(v), s, 143); GGC_WD(t, d143, v); }
    { char v; bits(&v, sizeof(v), s, 144); GGC_WD(t, d144, v); }
    { char v; bits(&v, sizeof(v), s, 145); GGC_WD(t, d145, v); }
    { char v; bits(&v, sizeof(v), s, 146); GGC_WD(t, d146, v); }
    { short v; bits(&v, sizeof(v), s, 147); GGC_WD(t, d147, v); }
    { short v; bits(&v, sizeof(v), s, 148); GGC_WD(t, d148, v); }
    { short v; bits(&v, sizeof(v), s, 149); GGC_WD(t, d149, v); }
    { short v; bits(&v, sizeof(v), s, 150); GGC_WD(t, d150, v); }
    { long v; bits(&v, sizeof(v), s, 151); GGC_WD(t, d151, v); }
    { double v; bits(&v, sizeof(v), s, 152); GGC_WD(t, d152, v); }
    { long v; bits(&v, sizeof(v), s, 153); GGC_WD(t, d153, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 154); GGC_WD(t, d154, v); }
    { short v; bits(&v, sizeof(v), s, 155); GGC_WD(t, d155, v); }
    { short v; bits(&v, sizeof(v), s, 156); GGC_WD(t, d156, v); }
    { short v; bits(&v, sizeof(v), s, 157); GGC_WD(t, d157, v); }
    { short v; bits(&v, sizeof(v), s, 158); GGC_WD(t, d158, v); }
    { long v; bits(&v, sizeof(v), s, 159); GGC_WD(t, d159, v); }
}
static int chkd_T35(void *o, uint64_t s) { T35 t = (T35) o; if (GGC_RD(t, id) != s) return -1;
    { GGC_voidp v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { double v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { short v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { short v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { short v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { short v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { GGC_voidp v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { double v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { double v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { GGC_voidp v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { size_t v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { GGC_voidp v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { Tri v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { Tri v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { short v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { short v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { short v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { short v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { short v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { Big17 v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { GGC_voidp v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { double v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { GGC_voidp v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { long v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { double v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { double v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { Big3 v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { double v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { GGC_voidp v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { int v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { int v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { Big17 v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { int v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { int v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { float v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { float v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { Big17 v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    { Tri v = GGC_RD(t, d37); if (!same(&v, sizeof(v), s, 37)) return 38; }
    { Tri v = GGC_RD(t, d38); if (!same(&v, sizeof(v), s, 38)) return 39; }
    { short v = GGC_RD(t, d39); if (!same(&v, sizeof(v), s, 39)) return 40; }
    { double v = GGC_RD(t, d40); if (!same(&v, sizeof(v), s, 40)) return 41; }
    { Big17 v = GGC_RD(t, d41); if (!same(&v, sizeof(v), s, 41)) return 42; }
    { int v = GGC_RD(t, d42); if (!same(&v, sizeof(v), s, 42)) return 43; }
    { int v = GGC_RD(t, d43); if (!same(&v, sizeof(v), s, 43)) return 44; }
    { float v = GGC_RD(t, d44); if (!same(&v, sizeof(v), s, 44)) return 45; }
    { float v = GGC_RD(t, d45); if (!same(&v, sizeof(v), s, 45)) return 46; }
    { GGC_voidp v = GGC_RD(t, d46); if (!same(&v, sizeof(v), s, 46)) return 47; }
    { short v = GGC_RD(t, d47); if (!same(&v, sizeof(v), s, 47)) return 48; }
    { short v = GGC_RD(t, d48); if (!same(&v, sizeof(v), s, 48)) return 49; }
    { short v = GGC_RD(t, d49); if (!same(&v, sizeof(v), s, 49)) return 50; }
    { short v = GGC_RD(t, d50); if (!same(&v, sizeof(v), s, 50)) return 51; }
    { double v = GGC_RD(t, d51); if (!same(&v, sizeof(v), s, 51)) return 52; }
    { float v = GGC_RD(t, d52); if (!same(&v, sizeof(v), s, 52)) return 53; }
    { float v = GGC_RD(t, d53); if (!same(&v, sizeof(v), s, 53)) return 54; }
    { char v = GGC_RD(t, d54); if (!same(&v, sizeof(v), s, 54)) return 55; }
    { char v = GGC_RD(t, d55); if (!same(&v, sizeof(v), s, 55)) return 56; }
    { char v = GGC_RD(t, d56); if (!same(&v, sizeof(v), s, 56)) return 57; }
    { char v = GGC_RD(t, d57); if (!same(&v, sizeof(v), s, 57)) return 58; }
    { char v = GGC_RD(t, d58); if (!same(&v, sizeof(v), s, 58)) return 59; }
    { char v = GGC_RD(t, d59); if (!same(&v, sizeof(v), s, 59)) return 60; }
    { char v = GGC_RD(t, d60); if (!same(&v, sizeof(v), s, 60)) return 61; }
    { char v = GGC_RD(t, d61); if (!same(&v, sizeof(v), s, 61)) return 62; }
    { double v = GGC_RD(t, d62); if (!same(&v, sizeof(v), s, 62)) return 63; }
    { double v = GGC_RD(t, d63); if (!same(&v, sizeof(v), s, 63)) return 64; }
    { Big3 v = GGC_RD(t, d64); if (!same(&v, sizeof(v), s, 64)) return 65; }
    { char v = GGC_RD(t, d65); if (!same(&v, sizeof(v), s, 65)) return 66; }
    { char v = GGC_RD(t, d66); if (!same(&v, sizeof(v), s, 66)) return 67; }
    { char v = GGC_RD(t, d67); if (!same(&v, sizeof(v), s, 67)) return 68; }
    { char v = GGC_RD(t, d68); if (!same(&v, sizeof(v), s, 68)) return 69; }
    { char v = GGC_RD(t, d69); if (!same(&v, sizeof(v), s, 69)) return 70; }
    { char v = GGC_RD(t, d70); if (!same(&v, sizeof(v), s, 70)) return 71; }
    { char v = GGC_RD(t, d71); if (!same(&v, sizeof(v), s, 71)) return 72; }
    { char v = GGC_RD(t, d72); if (!same(&v, sizeof(v), s, 72)) return 73; }
    { float v = GGC_RD(t, d73); if (!same(&v, sizeof(v), s, 73)) return 74; }
    { float v = GGC_RD(t, d74); if (!same(&v, sizeof(v), s, 74)) return 75; }
    { Big3 v = GGC_RD(t, d75); if (!same(&v, sizeof(v), s, 75)) return 76; }
    { int v = GGC_RD(t, d76); if (!same(&v, sizeof(v), s, 76)) return 77; }
    { int v = GGC_RD(t, d77); if (!same(&v, sizeof(v), s, 77)) return 78; }
    { float v = GGC_RD(t, d78); if (!same(&v, sizeof(v), s, 78)) return 79; }
    { float v = GGC_RD(t, d79); if (!same(&v, sizeof(v), s, 79)) return 80; }
    { GGC_voidp v = GGC_RD(t, d80); if (!same(&v, sizeof(v), s, 80)) return 81; }
    { long v = GGC_RD(t, d81); if (!same(&v, sizeof(v), s, 81)) return 82; }
    { size_t v = GGC_RD(t, d82); if (!same(&v, sizeof(v), s, 82)) return 83; }
    { GGC_voidp v = GGC_RD(t, d83); if (!same(&v, sizeof(v), s, 83)) return 84; }
    { char v = GGC_RD(t, d84); if (!same(&v, sizeof(v), s, 84)) return 85; }
    { char v = GGC_RD(t, d85); if (!same(&v, sizeof(v), s, 85)) return 86; }
    { char v = GGC_RD(t, d86); if (!same(&v, sizeof(v), s, 86)) return 87; }
    { char v = GGC_RD(t, d87); if (!same(&v, sizeof(v), s, 87)) return 88; }
    { char v = GGC_RD(t, d88); if (!same(&v, sizeof(v), s, 88)) return 89; }
    { char v = GGC_RD(t, d89); if (!same(&v, sizeof(v), s, 89)) return 90; }
    { char v = GGC_RD(t, d90); if (!same(&v, sizeof(v), s, 90)) return 91; }
    { char v = GGC_RD(t, d91); if (!same(&v, sizeof(v), s, 91)) return 92; }
    { float v = GGC_RD(t, d92); if (!same(&v, sizeof(v), s, 92)) return 93; }
    { float v = GGC_RD(t, d93); if (!same(&v, sizeof(v), s, 93)) return 94; }
    { float v = GGC_RD(t, d94); if (!same(&v, sizeof(v), s, 94)) return 95; }
    { float v = GGC_RD(t, d95); if (!same(&v, sizeof(v), s, 95)) return 96; }
    { long v = GGC_RD(t, d96); if (!same(&v, sizeof(v), s, 96)) return 97; }
    { Big3 v = GGC_RD(t, d97); if (!same(&v, sizeof(v), s, 97)) return 98; }
    { Big17 v = GGC_RD(t, d98); if (!same(&v, sizeof(v), s, 98)) return 99; }
    { GGC_voidp v = GGC_RD(t, d99); if (!same(&v, sizeof(v), s, 99)) return 100; }
    { Big17 v = GGC_RD(t, d100); if (!same(&v, sizeof(v), s, 100)) return 101; }
    { char v = GGC_RD(t, d101); if (!same(&v, sizeof(v), s, 101)) return 102; }
    { char v = GGC_RD(t, d102); if (!same(&v, sizeof(v), s, 102)) return 103; }
    { char v = GGC_RD(t, d103); if (!same(&v, sizeof(v), s, 103)) return 104; }
    { char v = GGC_RD(t, d104); if (!same(&v, sizeof(v), s, 104)) return 105; }
    { char v = GGC_RD(t, d105); if (!same(&v, sizeof(v), s, 105)) return 106; }
    { char v = GGC_RD(t, d106); if (!same(&v, sizeof(v), s, 106)) return 107; }
    { char v = GGC_RD(t, d107); if (!same(&v, sizeof(v), s, 107)) return 108; }
    { char v = GGC_RD(t, d108); if (!same(&v, sizeof(v), s, 108)) return 109; }
    { float v = GGC_RD(t, d109); if (!same(&v, sizeof(v), s, 109)) return 110; }
    { float v = GGC_RD(t, d110); if (!same(&v, sizeof(v), s, 110)) return 111; }
    { Big3 v = GGC_RD(t, d111); if (!same(&v, sizeof(v), s, 111)) return 112; }
    { int v = GGC_RD(t, d112); if (!same(&v, sizeof(v), s, 112)) return 113; }
    { int v = GGC_RD(t, d113); if (!same(&v, sizeof(v), s, 113)) return 114; }
    { double v = GGC_RD(t, d114); if (!same(&v, sizeof(v), s, 114)) return 115; }
    { Big17 v = GGC_RD(t, d115); if (!same(&v, sizeof(v), s, 115)) return 116; }
    { char v = GGC_RD(t, d116); if (!same(&v, sizeof(v), s, 116)) return 117; }
    { char v = GGC_RD(t, d117); if (!same(&v, sizeof(v), s, 117)) return 118; }
    { char v = GGC_RD(t, d118); if (!same(&v, sizeof(v), s, 118)) return 119; }
    { char v = GGC_RD(t, d119); if (!same(&v, sizeof(v), s, 119)) return 120; }
    { char v = GGC_RD(t, d120); if (!same(&v, sizeof(v), s, 120)) return 121; }
    { char v = GGC_RD(t, d121); if (!same(&v, sizeof(v), s, 121)) return 122; }
    { char v = GGC_RD(t, d122); if (!same(&v, sizeof(v), s, 122)) return 123; }
    { char v = GGC_RD(t, d123); if (!same(&v, sizeof(v), s, 123)) return 124; }
    { size_t v = GGC_RD(t, d124); if (!same(&v, sizeof(v), s, 124)) return 125; }
    { char v = GGC_RD(t, d125); if (!same(&v, sizeof(v), s, 125)) return 126; }
    { char v = GGC_RD(t, d126); if (!same(&v, sizeof(v), s, 126)) return 127; }
    { char v = GGC_RD(t, d127); if (!same(&v, sizeof(v), s, 127)) return 128; }
    { char v = GGC_RD(t, d128); if (!same(&v, sizeof(v), s, 128)) return 129; }
    { char v = GGC_RD(t, d129); if (!same(&v, sizeof(v), s, 129)) return 130; }
    { char v = GGC_RD(t, d130); if (!same(&v, sizeof(v), s, 130)) return 131; }
    { char v = GGC_RD(t, d131); if (!same(&v, sizeof(v), s, 131)) return 132; }
    { char v = GGC_RD(t, d132); if (!same(&v, sizeof(v), s, 132)) return 133; }
    { size_t v = GGC_RD(t, d133); if (!same(&v, sizeof(v), s, 133)) return 134; }
    { long v = GGC_RD(t, d134); if (!same(&v, sizeof(v), s, 134)) return 135; }
    { float v = GGC_RD(t, d135); if (!same(&v, sizeof(v), s, 135)) return 136; }
    { float v = GGC_RD(t, d136); if (!same(&v, sizeof(v), s, 136)) return 137; }
    { size_t v = GGC_RD(t, d137); if (!same(&v, sizeof(v), s, 137)) return 138; }
    { long v = GGC_RD(t, d138); if (!same(&v, sizeof(v), s, 138)) return 139; }
    { char v = GGC_RD(t, d139); if (!same(&v, sizeof(v), s, 139)) return 140; }
    { char v = GGC_RD(t, d140); if (!same(&v, sizeof(v), s, 140)) return 141; }
    { char v = GGC_RD(t, d141); if (!same(&v, sizeof(v), s, 141)) return 142; }
    { char v = GGC_RD(t, d142); if (!same(&v, sizeof(v), s, 142)) return 143; }
    { char v = GGC_RD(t, d143); if (!same(&v, sizeof(v), s, 143)) return 144; }
    { char v = GGC_RD(t, d144); if (!same(&v, sizeof(v), s, 144)) return 145; }
    { char v = GGC_RD(t, d145); if (!same(&v, sizeof(v), s, 145)) return 146; }
    { char v = GGC_RD(t, d146); if (!same(&v, sizeof(v), s, 146)) return 147; }
    { short v = GGC_RD(t, d147); if (!same(&v, sizeof(v), s, 147)) return 148; }
    { short v = GGC_RD(t, d148); if (!same(&v, sizeof(v), s, 148)) return 149; }
    { short v = GGC_RD(t, d149); if (!same(&v, sizeof(v), s, 149)) return 150; }
    { short v = GGC_RD(t, d150); if (!same(&v, sizeof(v), s, 150)) return 151; }
    { long v = GGC_RD(t, d151); if (!same(&v, sizeof(v), s, 151)) return 152; }
    { double v = GGC_RD(t, d152); if (!same(&v, sizeof(v), s, 152)) return 153; }
    { long v = GGC_RD(t, d153); if (!same(&v, sizeof(v), s, 153)) return 154; }
    { GGC_voidp v = GGC_RD(t, d154); if (!same(&v, sizeof(v), s, 154)) return 155; }
    { short v = GGC_RD(t, d155); if (!same(&v, sizeof(v), s, 155)) return 156; }
    { short v = GGC_RD(t, d156); if (!same(&v, sizeof(v), s, 156)) return 157; }
    { short v = GGC_RD(t, d157); if (!same(&v, sizeof(v), s, 157)) return 158; }
    { short v = GGC_RD(t, d158); if (!same(&v, sizeof(v), s, 158)) return 159; }
    { long v = GGC_RD(t, d159); if (!same(&v, sizeof(v), s, 159)) return 160; }
    return 0; }
static int zero_T35(void *o) { T35 t = (T35) o;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T35[] = { 0 };

GGC_TYPE(T36)
    GGC_MDATA(size_t, id);
    GGC_MPTR(Leaf, p0);
GGC_END_TYPE(T36,
    GGC_PTR(T36, p0)
    )
static void *new_T36(void) { return GGC_NEW(T36); }
static void setp_T36(void *o, int k, Leaf v) { T36 t = (T36) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T36(void *o, int k) { T36 t = (T36) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    default: return NULL; } }
static void setd_T36(void *o, uint64_t s) { T36 t = (T36) o; { size_t v = s; GGC_WD(t, id, v); }
}
static int chkd_T36(void *o, uint64_t s) { T36 t = (T36) o; if (GGC_RD(t, id) != s) return -1;
    return 0; }
static int zero_T36(void *o) { T36 t = (T36) o; if (GGC_RP(t, p0)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T36[] = { offsetof(struct T36__ggggc_struct, p0__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T37)
    GGC_MDATA(size_t, id);
    GGC_MPTR(Leaf, p0);
    GGC_MPTR(Leaf, p1);
GGC_END_TYPE(T37,
    GGC_PTR(T37, p0)
    GGC_PTR(T37, p1)
    )
static void *new_T37(void) { return GGC_NEW(T37); }
static void setp_T37(void *o, int k, Leaf v) { T37 t = (T37) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    case 1: GGC_WP(t, p1, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T37(void *o, int k) { T37 t = (T37) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    case 1: return GGC_RP(t, p1);
    default: return NULL; } }
static void setd_T37(void *o, uint64_t s) { T37 t = (T37) o; { size_t v = s; GGC_WD(t, id, v); }
}
static int chkd_T37(void *o, uint64_t s) { T37 t = (T37) o; if (GGC_RD(t, id) != s) return -1;
    return 0; }
static int zero_T37(void *o) { T37 t = (T37) o; if (GGC_RP(t, p0)) return 1; if (GGC_RP(t, p1)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T37[] = { offsetof(struct T37__ggggc_struct, p0__ptr) / sizeof(size_t), offsetof(struct T37__ggggc_struct, p1__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T38)
    GGC_MDATA(size_t, id);
    GGC_MPTR(Leaf, p0);
    GGC_MPTR(Leaf, p1);
    GGC_MPTR(Leaf, p2);
GGC_END_TYPE(T38,
    GGC_PTR(T38, p0)
    GGC_PTR(T38, p1)
    GGC_PTR(T38, p2)
    )
static void *new_T38(void) { return GGC_NEW(T38); }
static void setp_T38(void *o, int k, Leaf v) { T38 t = (T38) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    case 1: GGC_WP(t, p1, v); break;
    case 2: GGC_WP(t, p2, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T38(void *o, int k) { T38 t = (T38) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    case 1: return GGC_RP(t, p1);
    case 2: return GGC_RP(t, p2);
    default: return NULL; } }
static void setd_T38(void *o, uint64_t s) { T38 t = (T38) o; { size_t v = s; GGC_WD(t, id, v); }
}
static int chkd_T38(void *o, uint64_t s) { T38 t = (T38) o; if (GGC_RD(t, id) != s) return -1;
    return 0; }
static int zero_T38(void *o) { T38 t = (T38) o; if (GGC_RP(t, p0)) return 1; if (GGC_RP(t, p1)) return 1; if (GGC_RP(t, p2)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T38[] = { offsetof(struct T38__ggggc_struct, p0__ptr) / sizeof(size_t), offsetof(struct T38__ggggc_struct, p1__ptr) / sizeof(size_t), offsetof(struct T38__ggggc_struct, p2__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T39)
    GGC_MDATA(size_t, id);
    GGC_MPTR(Leaf, p0);
    GGC_MPTR(Leaf, p1);
    GGC_MPTR(Leaf, p2);
    GGC_MPTR(Leaf, p3);
    GGC_MPTR(Leaf, p4);
GGC_END_TYPE(T39,
    GGC_PTR(T39, p0)
    GGC_PTR(T39, p1)
    GGC_PTR(T39, p2)
    GGC_PTR(T39, p3)
    GGC_PTR(T39, p4)
    )
static void *new_T39(void) { return GGC_NEW(T39); }
static void setp_T39(void *o, int k, Leaf v) { T39 t = (T39) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    case 1: GGC_WP(t, p1, v); break;
    case 2: GGC_WP(t, p2, v); break;
    case 3: GGC_WP(t, p3, v); break;
    case 4: GGC_WP(t, p4, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T39(void *o, int k) { T39 t = (T39) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    case 1: return GGC_RP(t, p1);
    case 2: return GGC_RP(t, p2);
    case 3: return GGC_RP(t, p3);
    case 4: return GGC_RP(t, p4);
    default: return NULL; } }
static void setd_T39(void *o, uint64_t s) { T39 t = (T39) o; { size_t v = s; GGC_WD(t, id, v); }
}
static int chkd_T39(void *o, uint64_t s) { T39 t = (T39) o; if (GGC_RD(t, id) != s) return -1;
    return 0; }
static int zero_T39(void *o) { T39 t = (T39) o; if (GGC_RP(t, p0)) return 1; if (GGC_RP(t, p1)) return 1; if (GGC_RP(t, p2)) return 1; if (GGC_RP(t, p3)) return 1; if (GGC_RP(t, p4)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T39[] = { offsetof(struct T39__ggggc_struct, p0__ptr) / sizeof(size_t), offsetof(struct T39__ggggc_struct, p1__ptr) / sizeof(size_t), offsetof(struct T39__ggggc_struct, p2__ptr) / sizeof(size_t), offsetof(struct T39__ggggc_struct, p3__ptr) / sizeof(size_t), offsetof(struct T39__ggggc_struct, p4__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T40)
    GGC_MDATA(size_t, id);
    GGC_MPTR(Leaf, p0);
    GGC_MPTR(Leaf, p1);
    GGC_MPTR(Leaf, p2);
    GGC_MPTR(Leaf, p3);
    GGC_MPTR(Leaf, p4);
    GGC_MPTR(Leaf, p5);
    GGC_MPTR(Leaf, p6);
    GGC_MPTR(Leaf, p7);
    GGC_MPTR(Leaf, p8);
    GGC_MPTR(Leaf, p9);
    GGC_MPTR(Leaf, p10);
    GGC_MPTR(Leaf, p11);
GGC_END_TYPE(T40,
    GGC_PTR(T40, p0)
    GGC_PTR(T40, p1)
    GGC_PTR(T40, p2)
    GGC_PTR(T40, p3)
    GGC_PTR(T40, p4)
    GGC_PTR(T40, p5)
    GGC_PTR(T40, p6)
    GGC_PTR(T40, p7)
    GGC_PTR(T40, p8)
    GGC_PTR(T40, p9)
    GGC_PTR(T40, p10)
    GGC_PTR(T40, p11)
    )
static void *new_T40(void) { return GGC_NEW(T40); }
static void setp_T40(void *o, int k, Leaf v) { T40 t = (T40) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    case 1: GGC_WP(t, p1, v); break;
    case 2: GGC_WP(t, p2, v); break;
    case 3: GGC_WP(t, p3, v); break;
    case 4: GGC_WP(t, p4, v); break;
    case 5: GGC_WP(t, p5, v); break;
    case 6: GGC_WP(t, p6, v); break;
    case 7: GGC_WP(t, p7, v); break;
    case 8: GGC_WP(t, p8, v); break;
    case 9: GGC_WP(t, p9, v); break;
    case 10: GGC_WP(t, p10, v); break;
    case 11: GGC_WP(t, p11, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T40(void *o, int k) { T40 t = (T40) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    case 1: return GGC_RP(t, p1);
    case 2: return GGC_RP(t, p2);
    case 3: return GGC_RP(t, p3);
    case 4: return GGC_RP(t, p4);
    case 5: return GGC_RP(t, p5);
    case 6: return GGC_RP(t, p6);
    case 7: return GGC_RP(t, p7);
    case 8: return GGC_RP(t, p8);
    case 9: return GGC_RP(t, p9);
    case 10: return GGC_RP(t, p10);
    case 11: return GGC_RP(t, p11);
    default: return NULL; } }
static void setd_T40(void *o, uint64_t s) { T40 t = (T40) o; { size_t v = s; GGC_WD(t, id, v); }
}
static int chkd_T40(void *o, uint64_t s) { T40 t = (T40) o; if (GGC_RD(t, id) != s) return -1;
    return 0; }
static int zero_T40(void *o) { T40 t = (T40) o; if (GGC_RP(t, p0)) return 1; if (GGC_RP(t, p1)) return 1; if (GGC_RP(t, p2)) return 1; if (GGC_RP(t, p3)) return 1; if (GGC_RP(t, p4)) return 1; if (GGC_RP(t, p5)) return 1; if (GGC_RP(t, p6)) return 1; if (GGC_RP(t, p7)) return 1; if (GGC_RP(t, p8)) return 1; if (GGC_RP(t, p9)) return 1; if (GGC_RP(t, p10)) return 1; if (GGC_RP(t, p11)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T40[] = { offsetof(struct T40__ggggc_struct, p0__ptr) / sizeof(size_t), offsetof(struct T40__ggggc_struct, p1__ptr) / sizeof(size_t), offsetof(struct T40__ggggc_struct, p2__ptr) / sizeof(size_t), offsetof(struct T40__ggggc_struct, p3__ptr) / sizeof(size_t), offsetof(struct T40__ggggc_struct, p4__ptr) / sizeof(size_t), offsetof(struct T40__ggggc_struct, p5__ptr) / sizeof(size_t), offsetof(struct T40__ggggc_struct, p6__ptr) / sizeof(size_t), offsetof(struct T40__ggggc_struct, p7__ptr) / sizeof(size_t), offsetof(struct T40__ggggc_struct, p8__ptr) / sizeof(size_t), offsetof(struct T40__ggggc_struct, p9__ptr) / sizeof(size_t), offsetof(struct T40__ggggc_struct, p10__ptr) / sizeof(size_t), offsetof(struct T40__ggggc_struct, p11__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T41)
    GGC_MDATA(size_t, id);
    GGC_MPTR(Leaf, p0);
    GGC_MPTR(Leaf, p1);
    GGC_MPTR(Leaf, p2);
    GGC_MPTR(Leaf, p3);
    GGC_MPTR(Leaf, p4);
    GGC_MPTR(Leaf, p5);
    GGC_MPTR(Leaf, p6);
    GGC_MPTR(Leaf, p7);
    GGC_MPTR(Leaf, p8);
    GGC_MPTR(Leaf, p9);
    GGC_MPTR(Leaf, p10);
    GGC_MPTR(Leaf, p11);
    GGC_MPTR(Leaf, p12);
    GGC_MPTR(Leaf, p13);
    GGC_MPTR(Leaf, p14);
    GGC_MPTR(Leaf, p15);
    GGC_MPTR(Leaf, p16);
    GGC_MPTR(Leaf, p17);
    GGC_MPTR(Leaf, p18);
    GGC_MPTR(Leaf, p19);
    GGC_MPTR(Leaf, p20);
    GGC_MPTR(Leaf, p21);
    GGC_MPTR(Leaf, p22);
    GGC_MPTR(Leaf, p23);
    GGC_MPTR(Leaf, p24);
    GGC_MPTR(Leaf, p25);
    GGC_MPTR(Leaf, p26);
    GGC_MPTR(Leaf, p27);
GGC_END_TYPE(T41,
    GGC_PTR(T41, p0)
    GGC_PTR(T41, p1)
    GGC_PTR(T41, p2)
    GGC_PTR(T41, p3)
    GGC_PTR(T41, p4)
    GGC_PTR(T41, p5)
    GGC_PTR(T41, p6)
    GGC_PTR(T41, p7)
    GGC_PTR(T41, p8)
    GGC_PTR(T41, p9)
    GGC_PTR(T41, p10)
    GGC_PTR(T41, p11)
    GGC_PTR(T41, p12)
    GGC_PTR(T41, p13)
    GGC_PTR(T41, p14)
    GGC_PTR(T41, p15)
    GGC_PTR(T41, p16)
    GGC_PTR(T41, p17)
    GGC_PTR(T41, p18)
    GGC_PTR(T41, p19)
    GGC_PTR(T41, p20)
    GGC_PTR(T41, p21)
    GGC_PTR(T41, p22)
    GGC_PTR(T41, p23)
    GGC_PTR(T41, p24)
    GGC_PTR(T41, p25)
    GGC_PTR(T41, p26)
    GGC_PTR(T41, p27)
    )
static void *new_T41(void) { return GGC_NEW(T41); }
static void setp_T41(void *o, int k, Leaf v) { T41 t = (T41) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    case 1: GGC_WP(t, p1, v); break;
    case 2: GGC_WP(t, p2, v); break;
    case 3: GGC_WP(t, p3, v); break;
    case 4: GGC_WP(t, p4, v); break;
    case 5: GGC_WP(t, p5, v); break;
    case 6: GGC_WP(t, p6, v); break;
    case 7: GGC_WP(t, p7, v); break;
    case 8: GGC_WP(t, p8, v); break;
    case 9: GGC_WP(t, p9, v); break;
    case 10: GGC_WP(t, p10, v); break;
    case 11: GGC_WP(t, p11, v); break;
    case 12: GGC_WP(t, p12, v); break;
    case 13: GGC_WP(t, p13, v); break;
    case 14: GGC_WP(t, p14, v); break;
    case 15: GGC_WP(t, p15, v); break;
    case 16: GGC_WP(t, p16, v); break;
    case 17: GGC_WP(t, p17, v); break;
    case 18: GGC_WP(t, p18, v); break;
    case 19: GGC_WP(t, p19, v); break;
    case 20: GGC_WP(t, p20, v); break;
    case 21: GGC_WP(t, p21, v); break;
    case 22: GGC_WP(t, p22, v); break;
    case 23: GGC_WP(t, p23, v); break;
    case 24: GGC_WP(t, p24, v); break;
    case 25: GGC_WP(t, p25, v); break;
    case 26: GGC_WP(t, p26, v); break;
    case 27: GGC_WP(t, p27, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T41(void *o, int k) { T41 t = (T41) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    case 1: return GGC_RP(t, p1);
    case 2: return GGC_RP(t, p2);
    case 3: return GGC_RP(t, p3);
    case 4: return GGC_RP(t, p4);
    case 5: return GGC_RP(t, p5);
    case 6: return GGC_RP(t, p6);
    case 7: return GGC_RP(t, p7);
    case 8: return GGC_RP(t, p8);
    case 9: return GGC_RP(t, p9);
    case 10: return GGC_RP(t, p10);
    case 11: return GGC_RP(t, p11);
    case 12: return GGC_RP(t, p12);
    case 13: return GGC_RP(t, p13);
    case 14: return GGC_RP(t, p14);
    case 15: return GGC_RP(t, p15);
    case 16: return GGC_RP(t, p16);
    case 17: return GGC_RP(t, p17);
    case 18: return GGC_RP(t, p18);
    case 19: return GGC_RP(t, p19);
    case 20: return GGC_RP(t, p20);
    case 21: return GGC_RP(t, p21);
    case 22: return GGC_RP(t, p22);
    case 23: return GGC_RP(t, p23);
    case 24: return GGC_RP(t, p24);
    case 25: return GGC_RP(t, p25);
    case 26: return GGC_RP(t, p26);
    case 27: return GGC_RP(t, p27);
    default: return NULL; } }
static void setd_T41(void *o, uint64_t s) { T41 t = (T41) o; { size_t v = s; GGC_WD(t, id, v); }
}
static int chkd_T41(void *o, uint64_t s) { T41 t = (T41) o; if (GGC_RD(t, id) != s) return -1;
    return 0; }
static int zero_T41(void *o) { T41 t = (T41) o; if (GGC_RP(t, p0)) return 1; if (GGC_RP(t, p1)) return 1; if (GGC_RP(t, p2)) return 1; if (GGC_RP(t, p3)) return 1; if (GGC_RP(t, p4)) return 1; if (GGC_RP(t, p5)) return 1; if (GGC_RP(t, p6)) return 1; if (GGC_RP(t, p7)) return 1; if (GGC_RP(t, p8)) return 1; if (GGC_RP(t, p9)) return 1; if (GGC_RP(t, p10)) return 1; if (GGC_RP(t, p11)) return 1; if (GGC_RP(t, p12)) return 1; if (GGC_RP(t, p13)) return 1; if (GGC_RP(t, p14)) return 1; if (GGC_RP(t, p15)) return 1; if (GGC_RP(t, p16)) return 1; if (GGC_RP(t, p17)) return 1; if (GGC_RP(t, p18)) return 1; if (GGC_RP(t, p19)) return 1; if (GGC_RP(t, p20)) return 1; if (GGC_RP(t, p21)) return 1; if (GGC_RP(t, p22)) return 1; if (GGC_RP(t, p23)) return 1; if (GGC_RP(t, p24)) return 1; if (GGC_RP(t, p25)) return 1; if (GGC_RP(t, p26)) return 1; if (GGC_RP(t, p27)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T41[] = { offsetof(struct T41__ggggc_struct, p0__ptr) / sizeof(size_t), offsetof(struct T41__ggggc_struct, p1__ptr) / sizeof(size_t), offsetof(struct T41__ggggc_struct, p2__ptr) / sizeof(size_t), offsetof(struct T41__ggggc_struct, p3__ptr) / sizeof(size_t), offsetof(struct T41__ggggc_struct, p4__ptr) / sizeof(size_t), offsetof(struct T41__ggggc_struct, p5__ptr) / sizeof(size_t), offsetof(struct T41__ggggc_struct, p6__ptr) / sizeof(size_t), offsetof(struct T41__ggggc_struct, p7__ptr) / sizeof(size_t), offsetof(struct T41__ggggc_struct, p8__ptr) / sizeof(size_t), offsetof(struct T41__ggggc_struct, p9__ptr) / sizeof(size_t), offsetof(struct T41__ggggc_struct, p10__ptr) / sizeof(size_t), offsetof(struct T41__ggggc_struct, p11__ptr) / sizeof(size_t), offsetof(struct T41__ggggc_struct, p12__ptr) / sizeof(size_t), offsetof(struct T41__ggggc_struct, p13__ptr) / sizeof(size_t), offsetof(struct T41__ggggc_struct, p14__ptr) / sizeof(size_t), offsetof(struct T41__ggggc_struct, p15__ptr) / sizeof(size_t), offsetof(struct T41__ggggc_struct, p16__ptr) / sizeof(size_t), offsetof(struct T41__ggggc_struct, p17__ptr) / sizeof(size_t), offsetof(struct T41__ggggc_struct, p18__ptr) / sizeof(size_t), offsetof(struct T41__ggggc_struct, p19__ptr) / sizeof(size_t), offsetof(struct T41__ggggc_struct, p20__ptr) / sizeof(size_t), offsetof(struct T41__ggggc_struct, p21__ptr) / sizeof(size_t), offsetof(struct T41__ggggc_struct, p22__ptr) / sizeof(size_t), offsetof(struct T41__ggggc_struct, p23__ptr) / sizeof(size_t), offsetof(struct T41__ggggc_struct, p24__ptr) / sizeof(size_t), offsetof(struct T41__ggggc_struct, p25__ptr) / sizeof(size_t), offsetof(struct T41__ggggc_struct, p26__ptr) / sizeof(size_t), offsetof(struct T41__ggggc_struct, p27__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T42)
    GGC_MDATA(size_t, id);
    GGC_MPTR(Leaf, p0);
    GGC_MPTR(Leaf, p1);
    GGC_MPTR(Leaf, p2);
    GGC_MPTR(Leaf, p3);
    GGC_MPTR(Leaf, p4);
    GGC_MPTR(Leaf, p5);
    GGC_MPTR(Leaf, p6);
    GGC_MPTR(Leaf, p7);
    GGC_MPTR(Leaf, p8);
    GGC_MPTR(Leaf, p9);
    GGC_MPTR(Leaf, p10);
    GGC_MPTR(Leaf, p11);
    GGC_MPTR(Leaf, p12);
    GGC_MPTR(Leaf, p13);
    GGC_MPTR(Leaf, p14);
    GGC_MPTR(Leaf, p15);
    GGC_MPTR(Leaf, p16);
    GGC_MPTR(Leaf, p17);
    GGC_MPTR(Leaf, p18);
    GGC_MPTR(Leaf, p19);
    GGC_MPTR(Leaf, p20);
    GGC_MPTR(Leaf, p21);
    GGC_MPTR(Leaf, p22);
    GGC_MPTR(Leaf, p23);
    GGC_MPTR(Leaf, p24);
    GGC_MPTR(Leaf, p25);
    GGC_MPTR(Leaf, p26);
    GGC_MPTR(Leaf, p27);
    GGC_MPTR(Leaf, p28);
GGC_END_TYPE(T42,
    GGC_PTR(T42, p0)
    GGC_PTR(T42, p1)
    GGC_PTR(T42, p2)
    GGC_PTR(T42, p3)
    GGC_PTR(T42, p4)
    GGC_PTR(T42, p5)
    GGC_PTR(T42, p6)
    GGC_PTR(T42, p7)
    GGC_PTR(T42, p8)
    GGC_PTR(T42, p9)
    GGC_PTR(T42, p10)
    GGC_PTR(T42, p11)
    GGC_PTR(T42, p12)
    GGC_PTR(T42, p13)
    GGC_PTR(T42, p14)
    GGC_PTR(T42, p15)
    GGC_PTR(T42, p16)
    GGC_PTR(T42, p17)
    GGC_PTR(T42, p18)
    GGC_PTR(T42, p19)
    GGC_PTR(T42, p20)
    GGC_PTR(T42, p21)
    GGC_PTR(T42, p22)
    GGC_PTR(T42, p23)
    GGC_PTR(T42, p24)
    GGC_PTR(T42, p25)
    GGC_PTR(T42, p26)
    GGC_PTR(T42, p27)
    GGC_PTR(T42, p28)
    )
static void *new_T42(void) { return GGC_NEW(T42); }
static void setp_T42(void *o, int k, Leaf v) { T42 t = (T42) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    case 1: GGC_WP(t, p1, v); break;
    case 2: GGC_WP(t, p2, v); break;
    case 3: GGC_WP(t, p3, v); break;
    case 4: GGC_WP(t, p4, v); break;
    case 5: GGC_WP(t, p5, v); break;
    case 6: GGC_WP(t, p6, v); break;
    case 7: GGC_WP(t, p7, v); break;
    case 8: GGC_WP(t, p8, v); break;
    case 9: GGC_WP(t, p9, v); break;
    case 10: GGC_WP(t, p10, v); break;
    case 11: GGC_WP(t, p11, v); break;
    case 12: GGC_WP(t, p12, v); break;
    case 13: GGC_WP(t, p13, v); break;
    case 14: GGC_WP(t, p14, v); break;
    case 15: GGC_WP(t, p15, v); break;
    case 16: GGC_WP(t, p16, v); break;
    case 17: GGC_WP(t, p17, v); break;
    case 18: GGC_WP(t, p18, v); break;
    case 19: GGC_WP(t, p19, v); break;
    case 20: GGC_WP(t, p20, v); break;
    case 21: GGC_WP(t, p21, v); break;
    case 22: GGC_WP(t, p22, v); break;
    case 23: GGC_WP(t, p23, v); break;
    case 24: GGC_WP(t, p24, v); break;
    case 25: GGC_WP(t, p25, v); break;
    case 26: GGC_WP(t, p26, v); break;
    case 27: GGC_WP(t, p27, v); break;
    case 28: GGC_WP(t, p28, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T42(void *o, int k) { T42 t = (T42) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    case 1: return GGC_RP(t, p1);
    case 2: return GGC_RP(t, p2);
    case 3: return GGC_RP(t, p3);
    case 4: return GGC_RP(t, p4);
    case 5: return GGC_RP(t, p5);
    case 6: return GGC_RP(t, p6);
    case 7: return GGC_RP(t, p7);
    case 8: return GGC_RP(t, p8);
    case 9: return GGC_RP(t, p9);
    case 10: return GGC_RP(t, p10);
    case 11: return GGC_RP(t, p11);
    case 12: return GGC_RP(t, p12);
    case 13: return GGC_RP(t, p13);
    case 14: return GGC_RP(t, p14);
    case 15: return GGC_RP(t, p15);
    case 16: return GGC_RP(t, p16);
    case 17: return GGC_RP(t, p17);
    case 18: return GGC_RP(t, p18);
    case 19: return GGC_RP(t, p19);
    case 20: return GGC_RP(t, p20);
    case 21: return GGC_RP(t, p21);
    case 22: return GGC_RP(t, p22);
    case 23: return GGC_RP(t, p23);
    case 24: return GGC_RP(t, p24);
    case 25: return GGC_RP(t, p25);
    case 26: return GGC_RP(t, p26);
    case 27: return GGC_RP(t, p27);
    case 28: return GGC_RP(t, p28);
    default: return NULL; } }
static void setd_T42(void *o, uint64_t s) { T42 t = (T42) o; { size_t v = s; GGC_WD(t, id, v); }
}
static int chkd_T42(void *o, uint64_t s) { T42 t = (T42) o; if (GGC_RD(t, id) != s) return -1;
    return 0; }
static int zero_T42(void *o) { T42 t = (T42) o; if (GGC_RP(t, p0)) return 1; if (GGC_RP(t, p1)) return 1; if (GGC_RP(t, p2)) return 1; if (GGC_RP(t, p3)) return 1; if (GGC_RP(t, p4)) return 1; if (GGC_RP(t, p5)) return 1; if (GGC_RP(t, p6)) return 1; if (GGC_RP(t, p7)) return 1; if (GGC_RP(t, p8)) return 1; if (GGC_RP(t, p9)) return 1; if (GGC_RP(t, p10)) return 1; if (GGC_RP(t, p11)) return 1; if (GGC_RP(t, p12)) return 1; if (GGC_RP(t, p13)) return 1; if (GGC_RP(t, p14)) return 1; if (GGC_RP(t, p15)) return 1; if (GGC_RP(t, p16)) return 1; if (GGC_RP(t, p17)) return 1; if (GGC_RP(t, p18)) return 1; if (GGC_RP(t, p19)) return 1; if (GGC_RP(t, p20)) return 1; if (GGC_RP(t, p21)) return 1; if (GGC_RP(t, p22)) return 1; if (GGC_RP(t, p23)) return 1; if (GGC_RP(t, p24)) return 1; if (GGC_RP(t, p25)) return 1; if (GGC_RP(t, p26)) return 1; if (GGC_RP(t, p27)) return 1; if (GGC_RP(t, p28)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T42[] = { offsetof(struct T42__ggggc_struct, p0__ptr) / sizeof(size_t), offsetof(struct T42__ggggc_struct, p1__ptr) / sizeof(size_t), offsetof(struct T42__ggggc_struct, p2__ptr) / sizeof(size_t), offsetof(struct T42__ggggc_struct, p3__ptr) / sizeof(size_t), offsetof(struct T42__ggggc_struct, p4__ptr) / sizeof(size_t), offsetof(struct T42__ggggc_struct, p5__ptr) / sizeof(size_t), offsetof(struct T42__ggggc_struct, p6__ptr) / sizeof(size_t), offsetof(struct T42__ggggc_struct, p7__ptr) / sizeof(size_t), offsetof(struct T42__ggggc_struct, p8__ptr) / sizeof(size_t), offsetof(struct T42__ggggc_struct, p9__ptr) / sizeof(size_t), offsetof(struct T42__ggggc_struct, p10__ptr) / sizeof(size_t), offsetof(struct T42__ggggc_struct, p11__ptr) / sizeof(size_t), offsetof(struct T42__ggggc_struct, p12__ptr) / sizeof(size_t), offsetof(struct T42__ggggc_struct, p13__ptr) / sizeof(size_t), offsetof(struct T42__ggggc_struct, p14__ptr) / sizeof(size_t), offsetof(struct T42__ggggc_struct, p15__ptr) / sizeof(size_t), offsetof(struct T42__ggggc_struct, p16__ptr) / sizeof(size_t), offsetof(struct T42__ggggc_struct, p17__ptr) / sizeof(size_t), offsetof(struct T42__ggggc_struct, p18__ptr) / sizeof(size_t), offsetof(struct T42__ggggc_struct, p19__ptr) / sizeof(size_t), offsetof(struct T42__ggggc_struct, p20__ptr) / sizeof(size_t), offsetof(struct T42__ggggc_struct, p21__ptr) / sizeof(size_t), offsetof(struct T42__ggggc_struct, p22__ptr) / sizeof(size_t), offsetof(struct T42__ggggc_struct, p23__ptr) / sizeof(size_t), offsetof(struct T42__ggggc_struct, p24__ptr) / sizeof(size_t), offsetof(struct T42__ggggc_struct, p25__ptr) / sizeof(size_t), offsetof(struct T42__ggggc_struct, p26__ptr) / sizeof(size_t), offsetof(struct T42__ggggc_struct, p27__ptr) / sizeof(size_t), offsetof(struct T42__ggggc_struct, p28__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T43)
    GGC_MDATA(size_t, id);
    GGC_MPTR(Leaf, p0);
    GGC_MPTR(Leaf, p1);
    GGC_MPTR(Leaf, p2);
    GGC_MPTR(Leaf, p3);
    GGC_MPTR(Leaf, p4);
    GGC_MPTR(Leaf, p5);
    GGC_MPTR(Leaf, p6);
    GGC_MPTR(Leaf, p7);
    GGC_MPTR(Leaf, p8);
    GGC_MPTR(Leaf, p9);
    GGC_MPTR(Leaf, p10);
    GGC_MPTR(Leaf, p11);
    GGC_MPTR(Leaf, p12);
    GGC_MPTR(Leaf, p13);
    GGC_MPTR(Leaf, p14);
    GGC_MPTR(Leaf, p15);
    GGC_MPTR(Leaf, p16);
    GGC_MPTR(Leaf, p17);
    GGC_MPTR(Leaf, p18);
    GGC_MPTR(Leaf, p19);
    GGC_MPTR(Leaf, p20);
    GGC_MPTR(Leaf, p21);
    GGC_MPTR(Leaf, p22);
    GGC_MPTR(Leaf, p23);
    GGC_MPTR(Leaf, p24);
    GGC_MPTR(Leaf, p25);
    GGC_MPTR(Leaf, p26);
    GGC_MPTR(Leaf, p27);
    GGC_MPTR(Leaf, p28);
    GGC_MPTR(Leaf, p29);
GGC_END_TYPE(T43,
    GGC_PTR(T43, p0)
    GGC_PTR(T43, p1)
    GGC_PTR(T43, p2)
    GGC_PTR(T43, p3)
    GGC_PTR(T43, p4)
    GGC_PTR(T43, p5)
    GGC_PTR(T43, p6)
    GGC_PTR(T43, p7)
    GGC_PTR(T43, p8)
    GGC_PTR(T43, p9)
    GGC_PTR(T43, p10)
    GGC_PTR(T43, p11)
    GGC_PTR(T43, p12)
    GGC_PTR(T43, p13)
    GGC_PTR(T43, p14)
    GGC_PTR(T43, p15)
    GGC_PTR(T43, p16)
    GGC_PTR(T43, p17)
    GGC_PTR(T43, p18)
    GGC_PTR(T43, p19)
    GGC_PTR(T43, p20)
    GGC_PTR(T43, p21)
    GGC_PTR(T43, p22)
    GGC_PTR(T43, p23)
    GGC_PTR(T43, p24)
    GGC_PTR(T43, p25)
    GGC_PTR(T43, p26)
    GGC_PTR(T43, p27)
    GGC_PTR(T43, p28)
    GGC_PTR(T43, p29)
    )
static void *new_T43(void) { return GGC_NEW(T43); }
static void setp_T43(void *o, int k, Leaf v) { T43 t = (T43) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    case 1: GGC_WP(t, p1, v); break;
    case 2: GGC_WP(t, p2, v); break;
    case 3: GGC_WP(t, p3, v); break;
    case 4: GGC_WP(t, p4, v); break;
    case 5: GGC_WP(t, p5, v); break;
    case 6: GGC_WP(t, p6, v); break;
    case 7: GGC_WP(t, p7, v); break;
    case 8: GGC_WP(t, p8, v); break;
    case 9: GGC_WP(t, p9, v); break;
    case 10: GGC_WP(t, p10, v); break;
    case 11: GGC_WP(t, p11, v); break;
    case 12: GGC_WP(t, p12, v); break;
    case 13: GGC_WP(t, p13, v); break;
    case 14: GGC_WP(t, p14, v); break;
    case 15: GGC_WP(t, p15, v); break;
    case 16: GGC_WP(t, p16, v); break;
    case 17: GGC_WP(t, p17, v); break;
    case 18: GGC_WP(t, p18, v); break;
    case 19: GGC_WP(t, p19, v); break;
    case 20: GGC_WP(t, p20, v); break;
    case 21: GGC_WP(t, p21, v); break;
    case 22: GGC_WP(t, p22, v); break;
    case 23: GGC_WP(t, p23, v); break;
    case 24: GGC_WP(t, p24, v); break;
    case 25: GGC_WP(t, p25, v); break;
    case 26: GGC_WP(t, p26, v); break;
    case 27: GGC_WP(t, p27, v); break;
    case 28: GGC_WP(t, p28, v); break;
    case 29: GGC_WP(t, p29, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T43(void *o, int k) { T43 t = (T43) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    case 1: return GGC_RP(t, p1);
    case 2: return GGC_RP(t, p2);
    case 3: return GGC_RP(t, p3);
    case 4: return GGC_RP(t, p4);
    case 5: return GGC_RP(t, p5);
    case 6: return GGC_RP(t, p6);
    case 7: return GGC_RP(t, p7);
    case 8: return GGC_RP(t, p8);
    case 9: return GGC_RP(t, p9);
    case 10: return GGC_RP(t, p10);
    case 11: return GGC_RP(t, p11);
    case 12: return GGC_RP(t, p12);
    case 13: return GGC_RP(t, p13);
    case 14: return GGC_RP(t, p14);
    case 15: return GGC_RP(t, p15);
    case 16: return GGC_RP(t, p16);
    case 17: return GGC_RP(t, p17);
    case 18: return GGC_RP(t, p18);
    case 19: return GGC_RP(t, p19);
    case 20: return GGC_RP(t, p20);
    case 21: return GGC_RP(t, p21);
    case 22: return GGC_RP(t, p22);
    case 23: return GGC_RP(t, p23);
    case 24: return GGC_RP(t, p24);
    case 25: return GGC_RP(t, p25);
    case 26: return GGC_RP(t, p26);
    case 27: return GGC_RP(t, p27);
    case 28: return GGC_RP(t, p28);
    case 29: return GGC_RP(t, p29);
    default: return NULL; } }
static void setd_T43(void *o, uint64_t s) { T43 t = (T43) o; { size_t v = s; GGC_WD(t, id, v); }
}
static int chkd_T43(void *o, uint64_t s) { T43 t = (T43) o; if (GGC_RD(t, id) != s) return -1;
    return 0; }
static int zero_T43(void *o) { T43 t = (T43) o; if (GGC_RP(t, p0)) return 1; if (GGC_RP(t, p1)) return 1; if (GGC_RP(t, p2)) return 1; if (GGC_RP(t, p3)) return 1; if (GGC_RP(t, p4)) return 1; if (GGC_RP(t, p5)) return 1; if (GGC_RP(t, p6)) return 1; if (GGC_RP(t, p7)) return 1; if (GGC_RP(t, p8)) return 1; if (GGC_RP(t, p9)) return 1; if (GGC_RP(t, p10)) return 1; if (GGC_RP(t, p11)) return 1; if (GGC_RP(t, p12)) return 1; if (GGC_RP(t, p13)) return 1; if (GGC_RP(t, p14)) return 1; if (GGC_RP(t, p15)) return 1; if (GGC_RP(t, p16)) return 1; if (GGC_RP(t, p17)) return 1; if (GGC_RP(t, p18)) return 1; if (GGC_RP(t, p19)) return 1; if (GGC_RP(t, p20)) return 1; if (GGC_RP(t, p21)) return 1; if (GGC_RP(t, p22)) return 1; if (GGC_RP(t, p23)) return 1; if (GGC_RP(t, p24)) return 1; if (GGC_RP(t, p25)) return 1; if (GGC_RP(t, p26)) return 1; if (GGC_RP(t, p27)) return 1; if (GGC_RP(t, p28)) return 1; if (GGC_RP(t, p29)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T43[] = { offsetof(struct T43__ggggc_struct, p0__ptr) / sizeof(size_t), offsetof(struct T43__ggggc_struct, p1__ptr) / sizeof(size_t), offsetof(struct T43__ggggc_struct, p2__ptr) / sizeof(size_t), offsetof(struct T43__ggggc_struct, p3__ptr) / sizeof(size_t), offsetof(struct T43__ggggc_struct, p4__ptr) / sizeof(size_t), offsetof(struct T43__ggggc_struct, p5__ptr) / sizeof(size_t), offsetof(struct T43__ggggc_struct, p6__ptr) / sizeof(size_t), offsetof(struct T43__ggggc_struct, p7__ptr) / sizeof(size_t), offsetof(struct T43__ggggc_struct, p8__ptr) / sizeof(size_t), offsetof(struct T43__ggggc_struct, p9__ptr) / sizeof(size_t), offsetof(struct T43__ggggc_struct, p10__ptr) / sizeof(size_t), offsetof(struct T43__ggggc_struct, p11__ptr) / sizeof(size_t), offsetof(struct T43__ggggc_struct, p12__ptr) / sizeof(size_t), offsetof(struct T43__ggggc_struct, p13__ptr) / sizeof(size_t), offsetof(struct T43__ggggc_struct, p14__ptr) / sizeof(size_t), offsetof(struct T43__ggggc_struct, p15__ptr) / sizeof(size_t), offsetof(struct T43__ggggc_struct, p16__ptr) / sizeof(size_t), offsetof(struct T43__ggggc_struct, p17__ptr) / sizeof(size_t), offsetof(struct T43__ggggc_struct, p18__ptr) / sizeof(size_t), offsetof(struct T43__ggggc_struct, p19__ptr) / sizeof(size_t), offsetof(struct T43__ggggc_struct, p20__ptr) / sizeof(size_t), offsetof(struct T43__ggggc_struct, p21__ptr) / sizeof(size_t), offsetof(struct T43__ggggc_struct, p22__ptr) / sizeof(size_t), offsetof(struct T43__ggggc_struct, p23__ptr) / sizeof(size_t), offsetof(struct T43__ggggc_struct, p24__ptr) / sizeof(size_t), offsetof(struct T43__ggggc_struct, p25__ptr) / sizeof(size_t), offsetof(struct T43__ggggc_struct, p26__ptr) / sizeof(size_t), offsetof(struct T43__ggggc_struct, p27__ptr) / sizeof(size_t), offsetof(struct T43__ggggc_struct, p28__ptr) / sizeof(size_t), offsetof(struct T43__ggggc_struct, p29__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T44)
    GGC_MDATA(size_t, id);
    GGC_MPTR(Leaf, p0);
    GGC_MPTR(Leaf, p1);
    GGC_MPTR(Leaf, p2);
    GGC_MPTR(Leaf, p3);
    GGC_MPTR(Leaf, p4);
    GGC_MPTR(Leaf, p5);
    GGC_MPTR(Leaf, p6);
    GGC_MPTR(Leaf, p7);
    GGC_MPTR(Leaf, p8);
    GGC_MPTR(Leaf, p9);
    GGC_MPTR(Leaf, p10);
    GGC_MPTR(Leaf, p11);
    GGC_MPTR(Leaf, p12);
    GGC_MPTR(Leaf, p13);
    GGC_MPTR(Leaf, p14);
    GGC_MPTR(Leaf, p15);
    GGC_MPTR(Leaf, p16);
    GGC_MPTR(Leaf, p17);
    GGC_MPTR(Leaf, p18);
    GGC_MPTR(Leaf, p19);
    GGC_MPTR(Leaf, p20);
    GGC_MPTR(Leaf, p21);
    GGC_MPTR(Leaf, p22);
    GGC_MPTR(Leaf, p23);
    GGC_MPTR(Leaf, p24);
    GGC_MPTR(Leaf, p25);
    GGC_MPTR(Leaf, p26);
    GGC_MPTR(Leaf, p27);
    GGC_MPTR(Leaf, p28);
    GGC_MPTR(Leaf, p29);
    GGC_MPTR(Leaf, p30);
GGC_END_TYPE(T44,
    GGC_PTR(T44, p0)
    GGC_PTR(T44, p1)
    GGC_PTR(T44, p2)
    GGC_PTR(T44, p3)
    GGC_PTR(T44, p4)
    GGC_PTR(T44, p5)
    GGC_PTR(T44, p6)
    GGC_PTR(T44, p7)
    GGC_PTR(T44, p8)
    GGC_PTR(T44, p9)
    GGC_PTR(T44, p10)
    GGC_PTR(T44, p11)
    GGC_PTR(T44, p12)
    GGC_PTR(T44, p13)
    GGC_PTR(T44, p14)
    GGC_PTR(T44, p15)
    GGC_PTR(T44, p16)
    GGC_PTR(T44, p17)
    GGC_PTR(T44, p18)
    GGC_PTR(T44, p19)
    GGC_PTR(T44, p20)
    GGC_PTR(T44, p21)
    GGC_PTR(T44, p22)
    GGC_PTR(T44, p23)
    GGC_PTR(T44, p24)
    GGC_PTR(T44, p25)
    GGC_PTR(T44, p26)
    GGC_PTR(T44, p27)
    GGC_PTR(T44, p28)
    GGC_PTR(T44, p29)
    GGC_PTR(T44, p30)
    )
static void *new_T44(void) { return GGC_NEW(T44); }
static void setp_T44(void *o, int k, Leaf v) { T44 t = (T44) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    case 1: GGC_WP(t, p1, v); break;
    case 2: GGC_WP(t, p2, v); break;
    case 3: GGC_WP(t, p3, v); break;
    case 4: GGC_WP(t, p4, v); break;
    case 5: GGC_WP(t, p5, v); break;
    case 6: GGC_WP(t, p6, v); break;
    case 7: GGC_WP(t, p7, v); break;
    case 8: GGC_WP(t, p8, v); break;
    case 9: GGC_WP(t, p9, v); break;
    case 10: GGC_WP(t, p10, v); break;
    case 11: GGC_WP(t, p11, v); break;
    case 12: GGC_WP(t, p12, v); break;
    case 13: GGC_WP(t, p13, v); break;
    case 14: GGC_WP(t, p14, v); break;
    case 15: GGC_WP(t, p15, v); break;
    case 16: GGC_WP(t, p16, v); break;
    case 17: GGC_WP(t, p17, v); break;
    case 18: GGC_WP(t, p18, v); break;
    case 19: GGC_WP(t, p19, v); break;
    case 20: GGC_WP(t, p20, v); break;
    case 21: GGC_WP(t, p21, v); break;
    case 22: GGC_WP(t, p22, v); break;
    case 23: GGC_WP(t, p23, v); break;
    case 24: GGC_WP(t, p24, v); break;
    case 25: GGC_WP(t, p25, v); break;
    case 26: GGC_WP(t, p26, v); break;
    case 27: GGC_WP(t, p27, v); break;
    case 28: GGC_WP(t, p28, v); break;
    case 29: GGC_WP(t, p29, v); break;
    case 30: GGC_WP(t, p30, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T44(void *o, int k) { T44 t = (T44) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    case 1: return GGC_RP(t, p1);
    case 2: return GGC_RP(t, p2);
    case 3: return GGC_RP(t, p3);
    case 4: return GGC_RP(t, p4);
    case 5: return GGC_RP(t, p5);
    case 6: return GGC_RP(t, p6);
    case 7: return GGC_RP(t, p7);
    case 8: return GGC_RP(t, p8);
    case 9: return GGC_RP(t, p9);
    case 10: return GGC_RP(t, p10);
    case 11: return GGC_RP(t, p11);
    case 12: return GGC_RP(t, p12);
    case 13: return GGC_RP(t, p13);
    case 14: return GGC_RP(t, p14);
    case 15: return GGC_RP(t, p15);
    case 16: return GGC_RP(t, p16);
    case 17: return GGC_RP(t, p17);
    case 18: return GGC_RP(t, p18);
    case 19: return GGC_RP(t, p19);
    case 20: return GGC_RP(t, p20);
    case 21: return GGC_RP(t, p21);
    case 22: return GGC_RP(t, p22);
    case 23: return GGC_RP(t, p23);
    case 24: return GGC_RP(t, p24);
    case 25: return GGC_RP(t, p25);
    case 26: return GGC_RP(t, p26);
    case 27: return GGC_RP(t, p27);
    case 28: return GGC_RP(t, p28);
    case 29: return GGC_RP(t, p29);
    case 30: return GGC_RP(t, p30);
    default: return NULL; } }
static void setd_T44(void *o, uint64_t s) { T44 t = (T44) o; { size_t v = s; GGC_WD(t, id, v); }
}
static int chkd_T44(void *o, uint64_t s) { T44 t = (T44) o; if (GGC_RD(t, id) != s) return -1;
    return 0; }
static int zero_T44(void *o) { T44 t = (T44) o; if (GGC_RP(t, p0)) return 1; if (GGC_RP(t, p1)) return 1; if (GGC_RP(t, p2)) return 1; if (GGC_RP(t, p3)) return 1; if (GGC_RP(t, p4)) return 1; if (GGC_RP(t, p5)) return 1; if (GGC_RP(t, p6)) return 1; if (GGC_RP(t, p7)) return 1; if (GGC_RP(t, p8)) return 1; if (GGC_RP(t, p9)) return 1; if (GGC_RP(t, p10)) return 1; if (GGC_RP(t, p11)) return 1; if (GGC_RP(t, p12)) return 1; if (GGC_RP(t, p13)) return 1; if (GGC_RP(t, p14)) return 1; if (GGC_RP(t, p15)) return 1; if (GGC_RP(t, p16)) return 1; if (GGC_RP(t, p17)) return 1; if (GGC_RP(t, p18)) return 1; if (GGC_RP(t, p19)) return 1; if (GGC_RP(t, p20)) return 1; if (GGC_RP(t, p21)) return 1; if (GGC_RP(t, p22)) return 1; if (GGC_RP(t, p23)) return 1; if (GGC_RP(t, p24)) return 1; if (GGC_RP(t, p25)) return 1; if (GGC_RP(t, p26)) return 1; if (GGC_RP(t, p27)) return 1; if (GGC_RP(t, p28)) return 1; if (GGC_RP(t, p29)) return 1; if (GGC_RP(t, p30)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T44[] = { offsetof(struct T44__ggggc_struct, p0__ptr) / sizeof(size_t), offsetof(struct T44__ggggc_struct, p1__ptr) / sizeof(size_t), offsetof(struct T44__ggggc_struct, p2__ptr) / sizeof(size_t), offsetof(struct T44__ggggc_struct, p3__ptr) / sizeof(size_t), offsetof(struct T44__ggggc_struct, p4__ptr) / sizeof(size_t), offsetof(struct T44__ggggc_struct, p5__ptr) / sizeof(size_t), offsetof(struct T44__ggggc_struct, p6__ptr) / sizeof(size_t), offsetof(struct T44__ggggc_struct, p7__ptr) / sizeof(size_t), offsetof(struct T44__ggggc_struct, p8__ptr) / sizeof(size_t), offsetof(struct T44__ggggc_struct, p9__ptr) / sizeof(size_t), offsetof(struct T44__ggggc_struct, p10__ptr) / sizeof(size_t), offsetof(struct T44__ggggc_struct, p11__ptr) / sizeof(size_t), offsetof(struct T44__ggggc_struct, p12__ptr) / sizeof(size_t), offsetof(struct T44__ggggc_struct, p13__ptr) / sizeof(size_t), offsetof(struct T44__ggggc_struct, p14__ptr) / sizeof(size_t), offsetof(struct T44__ggggc_struct, p15__ptr) / sizeof(size_t), offsetof(struct T44__ggggc_struct, p16__ptr) / sizeof(size_t), offsetof(struct T44__ggggc_struct, p17__ptr) / sizeof(size_t), offsetof(struct T44__ggggc_struct, p18__ptr) / sizeof(size_t), offsetof(struct T44__ggggc_struct, p19__ptr) / sizeof(size_t), offsetof(struct T44__ggggc_struct, p20__ptr) / sizeof(size_t), offsetof(struct T44__ggggc_struct, p21__ptr) / sizeof(size_t), offsetof(struct T44__ggggc_struct, p22__ptr) / sizeof(size_t), offsetof(struct T44__ggggc_struct, p23__ptr) / sizeof(size_t), offsetof(struct T44__ggggc_struct, p24__ptr) / sizeof(size_t), offsetof(struct T44__ggggc_struct, p25__ptr) / sizeof(size_t), offsetof(struct T44__ggggc_struct, p26__ptr) / sizeof(size_t), offsetof(struct T44__ggggc_struct, p27__ptr) / sizeof(size_t), offsetof(struct T44__ggggc_struct, p28__ptr) / sizeof(size_t), offsetof(struct T44__ggggc_struct, p29__ptr) / sizeof(size_t), offsetof(struct T44__ggggc_struct, p30__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T45)
    GGC_MDATA(size_t, id);
    GGC_MPTR(Leaf, p0);
    GGC_MPTR(Leaf, p1);
    GGC_MPTR(Leaf, p2);
    GGC_MPTR(Leaf, p3);
    GGC_MPTR(Leaf, p4);
    GGC_MPTR(Leaf, p5);
    GGC_MPTR(Leaf, p6);
    GGC_MPTR(Leaf, p7);
    GGC_MPTR(Leaf, p8);
    GGC_MPTR(Leaf, p9);
    GGC_MPTR(Leaf, p10);
    GGC_MPTR(Leaf, p11);
    GGC_MPTR(Leaf, p12);
    GGC_MPTR(Leaf, p13);
    GGC_MPTR(Leaf, p14);
    GGC_MPTR(Leaf, p15);
    GGC_MPTR(Leaf, p16);
    GGC_MPTR(Leaf, p17);
    GGC_MPTR(Leaf, p18);
    GGC_MPTR(Leaf, p19);
    GGC_MPTR(Leaf, p20);
    GGC_MPTR(Leaf, p21);
    GGC_MPTR(Leaf, p22);
    GGC_MPTR(Leaf, p23);
    GGC_MPTR(Leaf, p24);
    GGC_MPTR(Leaf, p25);
    GGC_MPTR(Leaf, p26);
    GGC_MPTR(Leaf, p27);
    GGC_MPTR(Leaf, p28);
    GGC_MPTR(Leaf, p29);
    GGC_MPTR(Leaf, p30);
    GGC_MPTR(Leaf, p31);
    GGC_MPTR(Leaf, p32);
    GGC_MPTR(Leaf, p33);
    GGC_MPTR(Leaf, p34);
    GGC_MPTR(Leaf, p35);
    GGC_MPTR(Leaf, p36);
    GGC_MPTR(Leaf, p37);
    GGC_MPTR(Leaf, p38);
    GGC_MPTR(Leaf, p39);
GGC_END_TYPE(T45,
    GGC_PTR(T45, p0)
    GGC_PTR(T45, p1)
    GGC_PTR(T45, p2)
    GGC_PTR(T45, p3)
    GGC_PTR(T45, p4)
    GGC_PTR(T45, p5)
    GGC_PTR(T45, p6)
    GGC_PTR(T45, p7)
    GGC_PTR(T45, p8)
    GGC_PTR(T45, p9)
    GGC_PTR(T45, p10)
    GGC_PTR(T45, p11)
    GGC_PTR(T45, p12)
    GGC_PTR(T45, p13)
    GGC_PTR(T45, p14)
    GGC_PTR(T45, p15)
    GGC_PTR(T45, p16)
    GGC_PTR(T45, p17)
    GGC_PTR(T45, p18)
    GGC_PTR(T45, p19)
    GGC_PTR(T45, p20)
    GGC_PTR(T45, p21)
    GGC_PTR(T45, p22)
    GGC_PTR(T45, p23)
    GGC_PTR(T45, p24)
    GGC_PTR(T45, p25)
    GGC_PTR(T45, p26)
    GGC_PTR(T45, p27)
    GGC_PTR(T45, p28)
    GGC_PTR(T45, p29)
    GGC_PTR(T45, p30)
    GGC_PTR(T45, p31)
    GGC_PTR(T45, p32)
    GGC_PTR(T45, p33)
    GGC_PTR(T45, p34)
    GGC_PTR(T45, p35)
    GGC_PTR(T45, p36)
    GGC_PTR(T45, p37)
    GGC_PTR(T45, p38)
    GGC_PTR(T45, p39)
    )
static void *new_T45(void) { return GGC_NEW(T45); }
static void setp_T45(void *o, int k, Leaf v) { T45 t = (T45) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    case 1: GGC_WP(t, p1, v); break;
    case 2: GGC_WP(t, p2, v); break;
    case 3: GGC_WP(t, p3, v); break;
    case 4: GGC_WP(t, p4, v); break;
    case 5: GGC_WP(t, p5, v); break;
    case 6: GGC_WP(t, p6, v); break;
    case 7: GGC_WP(t, p7, v); break;
    case 8: GGC_WP(t, p8, v); break;
    case 9: GGC_WP(t, p9, v); break;
    case 10: GGC_WP(t, p10, v); break;
    case 11: GGC_WP(t, p11, v); break;
    case 12: GGC_WP(t, p12, v); break;
    case 13: GGC_WP(t, p13, v); break;
    case 14: GGC_WP(t, p14, v); break;
    case 15: GGC_WP(t, p15, v); break;
    case 16: GGC_WP(t, p16, v); break;
    case 17: GGC_WP(t, p17, v); break;
    case 18: GGC_WP(t, p18, v); break;
    case 19: GGC_WP(t, p19, v); break;
    case 20: GGC_WP(t, p20, v); break;
    case 21: GGC_WP(t, p21, v); break;
    case 22: GGC_WP(t, p22, v); break;
    case 23: GGC_WP(t, p23, v); break;
    case 24: GGC_WP(t, p24, v); break;
    case 25: GGC_WP(t, p25, v); break;
    case 26: GGC_WP(t, p26, v); break;
    case 27: GGC_WP(t, p27, v); break;
    case 28: GGC_WP(t, p28, v); break;
    case 29: GGC_WP(t, p29, v); break;
    case 30: GGC_WP(t, p30, v); break;
    case 31: GGC_WP(t, p31, v); break;
    case 32: GGC_WP(t, p32, v); break;
    case 33: GGC_WP(t, p33, v); break;
    case 34: GGC_WP(t, p34, v); break;
    case 35: GGC_WP(t, p35, v); break;
    case 36: GGC_WP(t, p36, v); break;
    case 37: GGC_WP(t, p37, v); break;
    case 38: GGC_WP(t, p38, v); break;
    case 39: GGC_WP(t, p39, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T45(void *o, int k) { T45 t = (T45) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    case 1: return GGC_RP(t, p1);
    case 2: return GGC_RP(t, p2);
    case 3: return GGC_RP(t, p3);
    case 4: return GGC_RP(t, p4);
    case 5: return GGC_RP(t, p5);
    case 6: return GGC_RP(t, p6);
    case 7: return GGC_RP(t, p7);
    case 8: return GGC_RP(t, p8);
    case 9: return GGC_RP(t, p9);
    case 10: return GGC_RP(t, p10);
    case 11: return GGC_RP(t, p11);
    case 12: return GGC_RP(t, p12);
    case 13: return GGC_RP(t, p13);
    case 14: return GGC_RP(t, p14);
    case 15: return GGC_RP(t, p15);
    case 16: return GGC_RP(t, p16);
    case 17: return GGC_RP(t, p17);
    case 18: return GGC_RP(t, p18);
    case 19: return GGC_RP(t, p19);
    case 20: return GGC_RP(t, p20);
    case 21: return GGC_RP(t, p21);
    case 22: return GGC_RP(t, p22);
    case 23: return GGC_RP(t, p23);
    case 24: return GGC_RP(t, p24);
    case 25: return GGC_RP(t, p25);
    case 26: return GGC_RP(t, p26);
    case 27: return GGC_RP(t, p27);
    case 28: return GGC_RP(t, p28);
    case 29: return GGC_RP(t, p29);
    case 30: return GGC_RP(t, p30);
    case 31: return GGC_RP(t, p31);
    case 32: return GGC_RP(t, p32);
    case 33: return GGC_RP(t, p33);
    case 34: return GGC_RP(t, p34);
    case 35: return GGC_RP(t, p35);
    case 36: return GGC_RP(t, p36);
    case 37: return GGC_RP(t, p37);
    case 38: return GGC_RP(t, p38);
    case 39: return GGC_RP(t, p39);
    default: return NULL; } }
static void setd_T45(void *o, uint64_t s) { T45 t = (T45) o; { size_t v = s; GGC_WD(t, id, v); }
}
static int chkd_T45(void *o, uint64_t s) { T45 t = (T45) o; if (GGC_RD(t, id) != s) return -1;
    return 0; }
static int zero_T45(void *o) { T45 t = (T45) o; if (GGC_RP(t, p0)) return 1; if (GGC_RP(t, p1)) return 1; if (GGC_RP(t, p2)) return 1; if (GGC_RP(t, p3)) return 1; if (GGC_RP(t, p4)) return 1; if (GGC_RP(t, p5)) return 1; if (GGC_RP(t, p6)) return 1; if (GGC_RP(t, p7)) return 1; if (GGC_RP(t, p8)) return 1; if (GGC_RP(t, p9)) return 1; if (GGC_RP(t, p10)) return 1; if (GGC_RP(t, p11)) return 1; if (GGC_RP(t, p12)) return 1; if (GGC_RP(t, p13)) return 1; if (GGC_RP(t, p14)) return 1; if (GGC_RP(t, p15)) return 1; if (GGC_RP(t, p16)) return 1; if (GGC_RP(t, p17)) return 1; if (GGC_RP(t, p18)) return 1; if (GGC_RP(t, p19)) return 1; if (GGC_RP(t, p20)) return 1; if (GGC_RP(t, p21)) return 1; if (GGC_RP(t, p22)) return 1; if (GGC_RP(t, p23)) return 1; if (GGC_RP(t, p24)) return 1; if (GGC_RP(t, p25)) return 1; if (GGC_RP(t, p26)) return 1; if (GGC_RP(t, p27)) return 1; if (GGC_RP(t, p28)) return 1; if (GGC_RP(t, p29)) return 1; if (GGC_RP(t, p30)) return 1; if (GGC_RP(t, p31)) return 1; if (GGC_RP(t, p32)) return 1; if (GGC_RP(t, p33)) return 1; if (GGC_RP(t, p34)) return 1; if (GGC_RP(t, p35)) return 1; if (GGC_RP(t, p36)) return 1; if (GGC_RP(t, p37)) return 1; if (GGC_RP(t, p38)) return 1; if (GGC_RP(t, p39)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T45[] = { offsetof(struct T45__ggggc_struct, p0__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p1__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p2__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p3__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p4__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p5__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p6__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p7__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p8__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p9__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p10__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p11__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p12__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p13__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p14__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p15__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p16__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p17__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p18__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p19__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p20__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p21__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p22__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p23__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p24__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p25__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p26__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p27__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p28__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p29__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p30__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p31__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p32__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p33__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p34__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p35__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p36__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p37__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p38__ptr) / sizeof(size_t), offsetof(struct T45__ggggc_struct, p39__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T46)
    GGC_MDATA(size_t, id);
    GGC_MPTR(Leaf, p0);
    GGC_MPTR(Leaf, p1);
    GGC_MPTR(Leaf, p2);
    GGC_MPTR(Leaf, p3);
    GGC_MPTR(Leaf, p4);
    GGC_MPTR(Leaf, p5);
    GGC_MPTR(Leaf, p6);
    GGC_MPTR(Leaf, p7);
    GGC_MPTR(Leaf, p8);
    GGC_MPTR(Leaf, p9);
    GGC_MPTR(Leaf, p10);
    GGC_MPTR(Leaf, p11);
    GGC_MPTR(Leaf, p12);
    GGC_MPTR(Leaf, p13);
    GGC_MPTR(Leaf, p14);
    GGC_MPTR(Leaf, p15);
    GGC_MPTR(Leaf, p16);
    GGC_MPTR(Leaf, p17);
    GGC_MPTR(Leaf, p18);
    GGC_MPTR(Leaf, p19);
    GGC_MPTR(Leaf, p20);
    GGC_MPTR(Leaf, p21);
    GGC_MPTR(Leaf, p22);
    GGC_MPTR(Leaf, p23);
    GGC_MPTR(Leaf, p24);
    GGC_MPTR(Leaf, p25);
    GGC_MPTR(Leaf, p26);
    GGC_MPTR(Leaf, p27);
    GGC_MPTR(Leaf, p28);
    GGC_MPTR(Leaf, p29);
    GGC_MPTR(Leaf, p30);
    GGC_MPTR(Leaf, p31);
    GGC_MPTR(Leaf, p32);
    GGC_MPTR(Leaf, p33);
    GGC_MPTR(Leaf, p34);
    GGC_MPTR(Leaf, p35);
    GGC_MPTR(Leaf, p36);
    GGC_MPTR(Leaf, p37);
    GGC_MPTR(Leaf, p38);
    GGC_MPTR(Leaf, p39);
    GGC_MPTR(Leaf, p40);
    GGC_MPTR(Leaf, p41);
    GGC_MPTR(Leaf, p42);
    GGC_MPTR(Leaf, p43);
    GGC_MPTR(Leaf, p44);
    GGC_MPTR(Leaf, p45);
    GGC_MPTR(Leaf, p46);
    GGC_MPTR(Leaf, p47);
    GGC_MPTR(Leaf, p48);
    GGC_MPTR(Leaf, p49);
    GGC_MPTR(Leaf, p50);
    GGC_MPTR(Leaf, p51);
    GGC_MPTR(Leaf, p52);
    GGC_MPTR(Leaf, p53);
    GGC_MPTR(Leaf, p54);
    GGC_MPTR(Leaf, p55);
    GGC_MPTR(Leaf, p56);
    GGC_MPTR(Leaf, p57);
    GGC_MPTR(Leaf, p58);
GGC_END_TYPE(T46,
    GGC_PTR(T46, p0)
    GGC_PTR(T46, p1)
    GGC_PTR(T46, p2)
    GGC_PTR(T46, p3)
    GGC_PTR(T46, p4)
    GGC_PTR(T46, p5)
    GGC_PTR(T46, p6)
    GGC_PTR(T46, p7)
    GGC_PTR(T46, p8)
    GGC_PTR(T46, p9)
    GGC_PTR(T46, p10)
    GGC_PTR(T46, p11)
    GGC_PTR(T46, p12)
    GGC_PTR(T46, p13)
    GGC_PTR(T46, p14)
    GGC_PTR(T46, p15)
    GGC_PTR(T46, p16)
    GGC_PTR(T46, p17)
    GGC_PTR(T46, p18)
    GGC_PTR(T46, p19)
    GGC_PTR(T46, p20)
    GGC_PTR(T46, p21)
    GGC_PTR(T46, p22)
    GGC_PTR(T46, p23)
    GGC_PTR(T46, p24)
    GGC_PTR(T46, p25)
    GGC_PTR(T46, p26)
    GGC_PTR(T46, p27)
    GGC_PTR(T46, p28)
    GGC_PTR(T46, p29)
    GGC_PTR(T46, p30)
    GGC_PTR(T46, p31)
    GGC_PTR(T46, p32)
    GGC_PTR(T46, p33)
    GGC_PTR(T46, p34)
    GGC_PTR(T46, p35)
    GGC_PTR(T46, p36)
    GGC_PTR(T46, p37)
    GGC_PTR(T46, p38)
    GGC_PTR(T46, p39)
    GGC_PTR(T46, p40)
    GGC_PTR(T46, p41)
    GGC_PTR(T46, p42)
    GGC_PTR(T46, p43)
    GGC_PTR(T46, p44)
    GGC_PTR(T46, p45)
    GGC_PTR(T46, p46)
    GGC_PTR(T46, p47)
    GGC_PTR(T46, p48)
    GGC_PTR(T46, p49)
    GGC_PTR(T46, p50)
    GGC_PTR(T46, p51)
    GGC_PTR(T46, p52)
    GGC_PTR(T46, p53)
    GGC_PTR(T46, p54)
    GGC_PTR(T46, p55)
    GGC_PTR(T46, p56)
    GGC_PTR(T46, p57)
    GGC_PTR(T46, p58)
    )
static void *new_T46(void) { return GGC_NEW(T46); }
static void setp_T46(void *o, int k, Leaf v) { T46 t = (T46) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    case 1: GGC_WP(t, p1, v); break;
    case 2: GGC_WP(t, p2, v); break;
    case 3: GGC_WP(t, p3, v); break;
    case 4: GGC_WP(t, p4, v); break;
    case 5: GGC_WP(t, p5, v); break;
    case 6: GGC_WP(t, p6, v); break;
    case 7: GGC_WP(t, p7, v); break;
    case 8: GGC_WP(t, p8, v); break;
    case 9: GGC_WP(t, p9, v); break;
    case 10: GGC_WP(t, p10, v); break;
    case 11: GGC_WP(t, p11, v); break;
    case 12: GGC_WP(t, p12, v); break;
    case 13: GGC_WP(t, p13, v); break;
    case 14: GGC_WP(t, p14, v); break;
    case 15: GGC_WP(t, p15, v); break;
    case 16: GGC_WP(t, p16, v); break;
    case 17: GGC_WP(t, p17, v); break;
    case 18: GGC_WP(t, p18, v); break;
    case 19: GGC_WP(t, p19, v); break;
    case 20: GGC_WP(t, p20, v); break;
    case 21: GGC_WP(t, p21, v); break;
    case 22: GGC_WP(t, p22, v); break;
    case 23: GGC_WP(t, p23, v); break;
    case 24: GGC_WP(t, p24, v); break;
    case 25: GGC_WP(t, p25, v); break;
    case 26: GGC_WP(t, p26, v); break;
    case 27: GGC_WP(t, p27, v); break;
    case 28: GGC_WP(t, p28, v); break;
    case 29: GGC_WP(t, p29, v); break;
    case 30: GGC_WP(t, p30, v); break;
    case 31: GGC_WP(t, p31, v); break;
    case 32: GGC_WP(t, p32, v); break;
    case 33: GGC_WP(t, p33, v); break;
    case 34: GGC_WP(t, p34, v); break;
    case 35: GGC_WP(t, p35, v); break;
    case 36: GGC_WP(t, p36, v); break;
    case 37: GGC_WP(t, p37, v); break;
    case 38: GGC_WP(t, p38, v); break;
    case 39: GGC_WP(t, p39, v); break;
    case 40: GGC_WP(t, p40, v); break;
    case 41: GGC_WP(t, p41, v); break;
    case 42: GGC_WP(t, p42, v); break;
    case 43: GGC_WP(t, p43, v); break;
    case 44: GGC_WP(t, p44, v); break;
    case 45: GGC_WP(t, p45, v); break;
    case 46: GGC_WP(t, p46, v); break;
    case 47: GGC_WP(t, p47, v); break;
    case 48: GGC_WP(t, p48, v); break;
    case 49: GGC_WP(t, p49, v); break;
    case 50: GGC_WP(t, p50, v); break;
    case 51: GGC_WP(t, p51, v); break;
    case 52: GGC_WP(t, p52, v); break;
    case 53: GGC_WP(t, p53, v); break;
    case 54: GGC_WP(t, p54, v); break;
    case 55: GGC_WP(t, p55, v); break;
    case 56: GGC_WP(t, p56, v); break;
    case 57: GGC_WP(t, p57, v); break;
    case 58: GGC_WP(t, p58, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T46(void *o, int k) { T46 t = (T46) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    case 1: return GGC_RP(t, p1);
    case 2: return GGC_RP(t, p2);
    case 3: return GGC_RP(t, p3);
    case 4: return GGC_RP(t, p4);
    case 5: return GGC_RP(t, p5);
    case 6: return GGC_RP(t, p6);
    case 7: return GGC_RP(t, p7);
    case 8: return GGC_RP(t, p8);
    case 9: return GGC_RP(t, p9);
    case 10: return GGC_RP(t, p10);
    case 11: return GGC_RP(t, p11);
    case 12: return GGC_RP(t, p12);
    case 13: return GGC_RP(t, p13);
    case 14: return GGC_RP(t, p14);
    case 15: return GGC_RP(t, p15);
    case 16: return GGC_RP(t, p16);
    case 17: return GGC_RP(t, p17);
    case 18: return GGC_RP(t, p18);
    case 19: return GGC_RP(t, p19);
    case 20: return GGC_RP(t, p20);
    case 21: return GGC_RP(t, p21);
    case 22: return GGC_RP(t, p22);
    case 23: return GGC_RP(t, p23);
    case 24: return GGC_RP(t, p24);
    case 25: return GGC_RP(t, p25);
    case 26: return GGC_RP(t, p26);
    case 27: return GGC_RP(t, p27);
    case 28: return GGC_RP(t, p28);
    case 29: return GGC_RP(t, p29);
    case 30: return GGC_RP(t, p30);
    case 31: return GGC_RP(t, p31);
    case 32: return GGC_RP(t, p32);
    case 33: return GGC_RP(t, p33);
    case 34: return GGC_RP(t, p34);
    case 35: return GGC_RP(t, p35);
    case 36: return GGC_RP(t, p36);
    case 37: return GGC_RP(t, p37);
    case 38: return GGC_RP(t, p38);
    case 39: return GGC_RP(t, p39);
    case 40: return GGC_RP(t, p40);
    case 41: return GGC_RP(t, p41);
    case 42: return GGC_RP(t, p42);
    case 43: return GGC_RP(t, p43);
    case 44: return GGC_RP(t, p44);
    case 45: return GGC_RP(t, p45);
    case 46: return GGC_RP(t, p46);
    case 47: return GGC_RP(t, p47);
    case 48: return GGC_RP(t, p48);
    case 49: return GGC_RP(t, p49);
    case 50: return GGC_RP(t, p50);
    case 51: return GGC_RP(t, p51);
    case 52: return GGC_RP(t, p52);
    case 53: return GGC_RP(t, p53);
    case 54: return GGC_RP(t, p54);
    case 55: return GGC_RP(t, p55);
    case 56: return GGC_RP(t, p56);
    case 57: return GGC_RP(t, p57);
    case 58: return GGC_RP(t, p58);
    default: return NULL; } }
static void setd_T46(void *o, uint64_t s) { T46 t = (T46) o; { size_t v = s; GGC_WD(t, id, v); }
}
static int chkd_T46(void *o, uint64_t s) { T46 t = (T46) o; if (GGC_RD(t, id) != s) return -1;
    return 0; }
static int zero_T46(void *o) { T46 t = (T46) o; if (GGC_RP(t, p0)) return 1; if (GGC_RP(t, p1)) return 1; if (GGC_RP(t, p2)) return 1; if (GGC_RP(t, p3)) return 1; if (GGC_RP(t, p4)) return 1; if (GGC_RP(t, p5)) return 1; if (GGC_RP(t, p6)) return 1; if (GGC_RP(t, p7)) return 1; if (GGC_RP(t, p8)) return 1; if (GGC_RP(t, p9)) return 1; if (GGC_RP(t, p10)) return 1; if (GGC_RP(t, p11)) return 1; if (GGC_RP(t, p12)) return 1; if (GGC_RP(t, p13)) return 1; if (GGC_RP(t, p14)) return 1; if (GGC_RP(t, p15)) return 1; if (GGC_RP(t, p16)) return 1; if (GGC_RP(t, p17)) return 1; if (GGC_RP(t, p18)) return 1; if (GGC_RP(t, p19)) return 1; if (GGC_RP(t, p20)) return 1; if (GGC_RP(t, p21)) return 1; if (GGC_RP(t, p22)) return 1; if (GGC_RP(t, p23)) return 1; if (GGC_RP(t, p24)) return 1; if (GGC_RP(t, p25)) return 1; if (GGC_RP(t, p26)) return 1; if (GGC_RP(t, p27)) return 1; if (GGC_RP(t, p28)) return 1; if (GGC_RP(t, p29)) return 1; if (GGC_RP(t, p30)) return 1; if (GGC_RP(t, p31)) return 1; if (GGC_RP(t, p32)) return 1; if (GGC_RP(t, p33)) return 1; if (GGC_RP(t, p34)) return 1; if (GGC_RP(t, p35)) return 1; if (GGC_RP(t, p36)) return 1; if (GGC_RP(t, p37)) return 1; if (GGC_RP(t, p38)) return 1; if (GGC_RP(t, p39)) return 1; if (GGC_RP(t, p40)) return 1; if (GGC_RP(t, p41)) return 1; if (GGC_RP(t, p42)) return 1; if (GGC_RP(t, p43)) return 1; if (GGC_RP(t, p44)) return 1; if (GGC_RP(t, p45)) return 1; if (GGC_RP(t, p46)) return 1; if (GGC_RP(t, p47)) return 1; if (GGC_RP(t, p48)) return 1; if (GGC_RP(t, p49)) return 1; if (GGC_RP(t, p50)) return 1; if (GGC_RP(t, p51)) return 1; if (GGC_RP(t, p52)) return 1; if (GGC_RP(t, p53)) return 1; if (GGC_RP(t, p54)) return 1; if (GGC_RP(t, p55)) return 1; if (GGC_RP(t, p56)) return 1; if (GGC_RP(t, p57)) return 1; if (GGC_RP(t, p58)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T46[] = { offsetof(struct T46__ggggc_struct, p0__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p1__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p2__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p3__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p4__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p5__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p6__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p7__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p8__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p9__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p10__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p11__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p12__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p13__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p14__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p15__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p16__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p17__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p18__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p19__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p20__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p21__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p22__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p23__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p24__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p25__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p26__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p27__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p28__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p29__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p30__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p31__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p32__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p33__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p34__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p35__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p36__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p37__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p38__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p39__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p40__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p41__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p42__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p43__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p44__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p45__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p46__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p47__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p48__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p49__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p50__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p51__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p52__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p53__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p54__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p55__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p56__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p57__ptr) / sizeof(size_t), offsetof(struct T46__ggggc_struct, p58__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T47)
    GGC_MDATA(size_t, id);
    GGC_MPTR(Leaf, p0);
    GGC_MPTR(Leaf, p1);
    GGC_MPTR(Leaf, p2);
    GGC_MPTR(Leaf, p3);
    GGC_MPTR(Leaf, p4);
    GGC_MPTR(Leaf, p5);
    GGC_MPTR(Leaf, p6);
    GGC_MPTR(Leaf, p7);
    GGC_MPTR(Leaf, p8);
    GGC_MPTR(Leaf, p9);
    GGC_MPTR(Leaf, p10);
    GGC_MPTR(Leaf, p11);
    GGC_MPTR(Leaf, p12);
    GGC_MPTR(Leaf, p13);
    GGC_MPTR(Leaf, p14);
    GGC_MPTR(Leaf, p15);
    GGC_MPTR(Leaf, p16);
    GGC_MPTR(Leaf, p17);
    GGC_MPTR(Leaf, p18);
    GGC_MPTR(Leaf, p19);
    GGC_MPTR(Leaf, p20);
    GGC_MPTR(Leaf, p21);
    GGC_MPTR(Leaf, p22);
    GGC_MPTR(Leaf, p23);
    GGC_MPTR(Leaf, p24);
    GGC_MPTR(Leaf, p25);
    GGC_MPTR(Leaf, p26);
    GGC_MPTR(Leaf, p27);
    GGC_MPTR(Leaf, p28);
    GGC_MPTR(Leaf, p29);
    GGC_MPTR(Leaf, p30);
    GGC_MPTR(Leaf, p31);
    GGC_MPTR(Leaf, p32);
    GGC_MPTR(Leaf, p33);
    GGC_MPTR(Leaf, p34);
    GGC_MPTR(Leaf, p35);
    GGC_MPTR(Leaf, p36);
    GGC_MPTR(Leaf, p37);
    GGC_MPTR(Leaf, p38);
    GGC_MPTR(Leaf, p39);
    GGC_MPTR(Leaf, p40);
    GGC_MPTR(Leaf, p41);
    GGC_MPTR(Leaf, p42);
    GGC_MPTR(Leaf, p43);
    GGC_MPTR(Leaf, p44);
    GGC_MPTR(Leaf, p45);
    GGC_MPTR(Leaf, p46);
    GGC_MPTR(Leaf, p47);
    GGC_MPTR(Leaf, p48);
    GGC_MPTR(Leaf, p49);
    GGC_MPTR(Leaf, p50);
    GGC_MPTR(Leaf, p51);
    GGC_MPTR(Leaf, p52);
    GGC_MPTR(Leaf, p53);
    GGC_MPTR(Leaf, p54);
    GGC_MPTR(Leaf, p55);
    GGC_MPTR(Leaf, p56);
    GGC_MPTR(Leaf, p57);
    GGC_MPTR(Leaf, p58);
    GGC_MPTR(Leaf, p59);
    GGC_MPTR(Leaf, p60);
GGC_END_TYPE(T47,
    GGC_PTR(T47, p0)
    GGC_PTR(T47, p1)
    GGC_PTR(T47, p2)
    GGC_PTR(T47, p3)
    GGC_PTR(T47, p4)
    GGC_PTR(T47, p5)
    GGC_PTR(T47, p6)
    GGC_PTR(T47, p7)
    GGC_PTR(T47, p8)
    GGC_PTR(T47, p9)
    GGC_PTR(T47, p10)
    GGC_PTR(T47, p11)
    GGC_PTR(T47, p12)
    GGC_PTR(T47, p13)
    GGC_PTR(T47, p14)
    GGC_PTR(T47, p15)
    GGC_PTR(T47, p16)
    GGC_PTR(T47, p17)
    GGC_PTR(T47, p18)
    GGC_PTR(T47, p19)
    GGC_PTR(T47, p20)
    GGC_PTR(T47, p21)
    GGC_PTR(T47, p22)
    GGC_PTR(T47, p23)
    GGC_PTR(T47, p24)
    GGC_PTR(T47, p25)
    GGC_PTR(T47, p26)
    GGC_PTR(T47, p27)
    GGC_PTR(T47, p28)
    GGC_PTR(T47, p29)
    GGC_PTR(T47, p30)
    GGC_PTR(T47, p31)
    GGC_PTR(T47, p32)
    GGC_PTR(T47, p33)
    GGC_PTR(T47, p34)
    GGC_PTR(T47, p35)
    GGC_PTR(T47, p36)
    GGC_PTR(T47, p37)
    GGC_PTR(T47, p38)
    GGC_PTR(T47, p39)
    GGC_PTR(T47, p40)
    GGC_PTR(T47, p41)
    GGC_PTR(T47, p42)
    GGC_PTR(T47, p43)
    GGC_PTR(T47, p44)
    GGC_PTR(T47, p45)
    GGC_PTR(T47, p46)
    GGC_PTR(T47, p47)
    GGC_PTR(T47, p48)
    GGC_PTR(T47, p49)
    GGC_PTR(T47, p50)
    GGC_PTR(T47, p51)
    GGC_PTR(T47, p52)
    GGC_PTR(T47, p53)
    GGC_PTR(T47, p54)
    GGC_PTR(T47, p55)
    GGC_PTR(T47, p56)
    GGC_PTR(T47, p57)
    GGC_PTR(T47, p58)
    GGC_PTR(T47, p59)
    GGC_PTR(T47, p60)
    )
static void *new_T47(void) { return GGC_NEW(T47); }
static void setp_T47(void *o, int k, Leaf v) { T47 t = (T47) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    case 1: GGC_WP(t, p1, v); break;
    case 2: GGC_WP(t, p2, v); break;
    case 3: GGC_WP(t, p3, v); break;
    case 4: GGC_WP(t, p4, v); break;
    case 5: GGC_WP(t, p5, v); break;
    case 6: GGC_WP(t, p6, v); break;
    case 7: GGC_WP(t, p7, v); break;
    case 8: GGC_WP(t, p8, v); break;
    case 9: GGC_WP(t, p9, v); break;
    case 10: GGC_WP(t, p10, v); break;
    case 11: GGC_WP(t, p11, v); break;
    case 12: GGC_WP(t, p12, v); break;
    case 13: GGC_WP(t, p13, v); break;
    case 14: GGC_WP(t, p14, v); break;
    case 15: GGC_WP(t, p15, v); break;
    case 16: GGC_WP(t, p16, v); break;
    case 17: GGC_WP(t, p17, v); break;
    case 18: GGC_WP(t, p18, v); break;
    case 19: GGC_WP(t, p19, v); break;
    case 20: GGC_WP(t, p20, v); break;
    case 21: GGC_WP(t, p21, v); break;
    case 22: GGC_WP(t, p22, v); break;
    case 23: GGC_WP(t, p23, v); break;
    case 24: GGC_WP(t, p24, v); break;
    case 25: GGC_WP(t, p25, v); break;
    case 26: GGC_WP(t, p26, v); break;
    case 27: GGC_WP(t, p27, v); break;
    case 28: GGC_WP(t, p28, v); break;
    case 29: GGC_WP(t, p29, v); break;
    case 30: GGC_WP(t, p30, v); break;
    case 31: GGC_WP(t, p31, v); break;
    case 32: GGC_WP(t, p32, v); break;
    case 33: GGC_WP(t, p33, v); break;
    case 34: GGC_WP(t, p34, v); break;
    case 35: GGC_WP(t, p35, v); break;
    case 36: GGC_WP(t, p36, v); break;
    case 37: GGC_WP(t, p37, v); break;
    case 38: GGC_WP(t, p38, v); break;
    case 39: GGC_WP(t, p39, v); break;
    case 40: GGC_WP(t, p40, v); break;
    case 41: GGC_WP(t, p41, v); break;
    case 42: GGC_WP(t, p42, v); break;
    case 43: GGC_WP(t, p43, v); break;
    case 44: GGC_WP(t, p44, v); break;
    case 45: GGC_WP(t, p45, v); break;
    case 46: GGC_WP(t, p46, v); break;
    case 47: GGC_WP(t, p47, v); break;
    case 48: GGC_WP(t, p48, v); break;
    case 49: GGC_WP(t, p49, v); break;
    case 50: GGC_WP(t, p50, v); break;
    case 51: GGC_WP(t, p51, v); break;
    case 52: GGC_WP(t, p52, v); break;
    case 53: GGC_WP(t, p53, v); break;
    case 54: GGC_WP(t, p54, v); break;
    case 55: GGC_WP(t, p55, v); break;
    case 56: GGC_WP(t, p56, v); break;
    case 57: GGC_WP(t, p57, v); break;
    case 58: GGC_WP(t, p58, v); break;
    case 59: GGC_WP(t, p59, v); break;
    case 60: GGC_WP(t, p60, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T47(void *o, int k) { T47 t = (T47) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    case 1: return GGC_RP(t, p1);
    case 2: return GGC_RP(t, p2);
    case 3: return GGC_RP(t, p3);
    case 4: return GGC_RP(t, p4);
    case 5: return GGC_RP(t, p5);
    case 6: return GGC_RP(t, p6);
    case 7: return GGC_RP(t, p7);
    case 8: return GGC_RP(t, p8);
    case 9: return GGC_RP(t, p9);
    case 10: return GGC_RP(t, p10);
    case 11: return GGC_RP(t, p11);
    case 12: return GGC_RP(t, p12);
    case 13: return GGC_RP(t, p13);
    case 14: return GGC_RP(t, p14);
    case 15: return GGC_RP(t, p15);
    case 16: return GGC_RP(t, p16);
    case 17: return GGC_RP(t, p17);
    case 18: return GGC_RP(t, p18);
    case 19: return GGC_RP(t, p19);
    case 20: return GGC_RP(t, p20);
    case 21: return GGC_RP(t, p21);
    case 22: return GGC_RP(t, p22);
    case 23: return GGC_RP(t, p23);
    case 24: return GGC_RP(t, p24);
    case 25: return GGC_RP(t, p25);
    case 26: return GGC_RP(t, p26);
    case 27: return GGC_RP(t, p27);
    case 28: return GGC_RP(t, p28);
    case 29: return GGC_RP(t, p29);
    case 30: return GGC_RP(t, p30);
    case 31: return GGC_RP(t, p31);
    case 32: return GGC_RP(t, p32);
    case 33: return GGC_RP(t, p33);
    case 34: return GGC_RP(t, p34);
    case 35: return GGC_RP(t, p35);
    case 36: return GGC_RP(t, p36);
    case 37: return GGC_RP(t, p37);
    case 38: return GGC_RP(t, p38);
    case 39: return GGC_RP(t, p39);
    case 40: return GGC_RP(t, p40);
    case 41: return GGC_RP(t, p41);
    case 42: return GGC_RP(t, p42);
    case 43: return GGC_RP(t, p43);
    case 44: return GGC_RP(t, p44);
    case 45: return GGC_RP(t, p45);
    case 46: return GGC_RP(t, p46);
    case 47: return GGC_RP(t, p47);
    case 48: return GGC_RP(t, p48);
    case 49: return GGC_RP(t, p49);
    case 50: return GGC_RP(t, p50);
    case 51: return GGC_RP(t, p51);
    case 52: return GGC_RP(t, p52);
    case 53: return GGC_RP(t, p53);
    case 54: return GGC_RP(t, p54);
    case 55: return GGC_RP(t, p55);
    case 56: return GGC_RP(t, p56);
    case 57: return GGC_RP(t, p57);
    case 58: return GGC_RP(t, p58);
    case 59: return GGC_RP(t, p59);
    case 60: return GGC_RP(t, p60);
    default: return NULL; } }
static void setd_T47(void *o, uint64_t s) { T47 t = (T47) o; { size_t v = s; GGC_WD(t, id, v); }
}
static int chkd_T47(void *o, uint64_t s) { T47 t = (T47) o; if (GGC_RD(t, id) != s) return -1;
    return 0; }
static int zero_T47(void *o) { T47 t = (T47) o; if (GGC_RP(t, p0)) return 1; if (GGC_RP(t, p1)) return 1; if (GGC_RP(t, p2)) return 1; if (GGC_RP(t, p3)) return 1; if (GGC_RP(t, p4)) return 1; if (GGC_RP(t, p5)) return 1; if (GGC_RP(t, p6)) return 1; if (GGC_RP(t, p7)) return 1; if (GGC_RP(t, p8)) return 1; if (GGC_RP(t, p9)) return 1; if (GGC_RP(t, p10)) return 1; if (GGC_RP(t, p11)) return 1; if (GGC_RP(t, p12)) return 1; if (GGC_RP(t, p13)) return 1; if (GGC_RP(t, p14)) return 1; if (GGC_RP(t, p15)) return 1; if (GGC_RP(t, p16)) return 1; if (GGC_RP(t, p17)) return 1; if (GGC_RP(t, p18)) return 1; if (GGC_RP(t, p19)) return 1; if (GGC_RP(t, p20)) return 1; if (GGC_RP(t, p21)) return 1; if (GGC_RP(t, p22)) return 1; if (GGC_RP(t, p23)) return 1; if (GGC_RP(t, p24)) return 1; if (GGC_RP(t, p25)) return 1; if (GGC_RP(t, p26)) return 1; if (GGC_RP(t, p27)) return 1; if (GGC_RP(t, p28)) return 1; if (GGC_RP(t, p29)) return 1; if (GGC_RP(t, p30)) return 1; if (GGC_RP(t, p31)) return 1; if (GGC_RP(t, p32)) return 1; if (GGC_RP(t, p33)) return 1; if (GGC_RP(t, p34)) return 1; if (GGC_RP(t, p35)) return 1; if (GGC_RP(t, p36)) return 1; if (GGC_RP(t, p37)) return 1; if (GGC_RP(t, p38)) return 1; if (GGC_RP(t, p39)) return 1; if (GGC_RP(t, p40)) return 1; if (GGC_RP(t, p41)) return 1; if (GGC_RP(t, p42)) return 1; if (GGC_RP(t, p43)) return 1; if (GGC_RP(t, p44)) return 1; if (GGC_RP(t, p45)) return 1; if (GGC_RP(t, p46)) return 1; if (GGC_RP(t, p47)) return 1; if (GGC_RP(t, p48)) return 1; if (GGC_RP(t, p49)) return 1; if (GGC_RP(t, p50)) return 1; if (GGC_RP(t, p51)) return 1; if (GGC_RP(t, p52)) return 1; if (GGC_RP(t, p53)) return 1; if (GGC_RP(t, p54)) return 1; if (GGC_RP(t, p55)) return 1; if (GGC_RP(t, p56)) return 1; if (GGC_RP(t, p57)) return 1; if (GGC_RP(t, p58)) return 1; if (GGC_RP(t, p59)) return 1; if (GGC_RP(t, p60)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T47[] = { offsetof(struct T47__ggggc_struct, p0__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p1__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p2__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p3__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p4__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p5__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p6__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p7__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p8__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p9__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p10__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p11__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p12__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p13__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p14__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p15__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p16__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p17__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p18__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p19__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p20__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p21__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p22__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p23__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p24__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p25__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p26__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p27__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p28__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p29__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p30__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p31__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p32__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p33__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p34__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p35__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p36__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p37__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p38__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p39__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p40__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p41__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p42__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p43__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p44__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p45__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p46__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p47__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p48__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p49__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p50__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p51__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p52__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p53__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p54__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p55__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p56__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p57__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p58__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p59__ptr) / sizeof(size_t), offsetof(struct T47__ggggc_struct, p60__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T48)
    GGC_MDATA(size_t, id);
    GGC_MDATA(char, d0);
    GGC_MDATA(char, d1);
    GGC_MDATA(char, d2);
    GGC_MDATA(char, d3);
    GGC_MDATA(char, d4);
    GGC_MDATA(char, d5);
    GGC_MDATA(char, d6);
    GGC_MDATA(char, d7);
    GGC_MDATA(GGC_voidp, d8);
    GGC_MPTR(Leaf, p0);
    GGC_MPTR(Leaf, p1);
GGC_END_TYPE(T48,
    GGC_PTR(T48, p0)
    GGC_PTR(T48, p1)
    )
static void *new_T48(void) { return GGC_NEW(T48); }
static void setp_T48(void *o, int k, Leaf v) { T48 t = (T48) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    case 1: GGC_WP(t, p1, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T48(void *o, int k) { T48 t = (T48) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    case 1: return GGC_RP(t, p1);
    default: return NULL; } }
static void setd_T48(void *o, uint64_t s) { T48 t = (T48) o; { size_t v = s; GGC_WD(t, id, v); }
    { char v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { char v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { char v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { char v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { char v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { char v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { char v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { char v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
}
static int chkd_T48(void *o, uint64_t s) { T48 t = (T48) o; if (GGC_RD(t, id) != s) return -1;
    { char v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { char v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { char v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { char v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { char v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { char v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { char v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { char v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { GGC_voidp v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    return 0; }
static int zero_T48(void *o) { T48 t = (T48) o; if (GGC_RP(t, p0)) return 1; if (GGC_RP(t, p1)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T48[] = { offsetof(struct T48__ggggc_struct, p0__ptr) / sizeof(size_t), offsetof(struct T48__ggggc_struct, p1__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T49)
    GGC_MDATA(size_t, id);
    GGC_MPTR(Leaf, p0);
    GGC_MPTR(Leaf, p1);
    GGC_MDATA(size_t, d0);
    GGC_MPTR(Leaf, p2);
    GGC_MPTR(Leaf, p3);
    GGC_MPTR(Leaf, p4);
    GGC_MPTR(Leaf, p5);
    GGC_MPTR(Leaf, p6);
    GGC_MPTR(Leaf, p7);
GGC_END_TYPE(T49,
    GGC_PTR(T49, p0)
    GGC_PTR(T49, p1)
    GGC_PTR(T49, p2)
    GGC_PTR(T49, p3)
    GGC_PTR(T49, p4)
    GGC_PTR(T49, p5)
    GGC_PTR(T49, p6)
    GGC_PTR(T49, p7)
    )
static void *new_T49(void) { return GGC_NEW(T49); }
static void setp_T49(void *o, int k, Leaf v) { T49 t = (T49) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    case 1: GGC_WP(t, p1, v); break;
    case 2: GGC_WP(t, p2, v); break;
    case 3: GGC_WP(t, p3, v); break;
    case 4: GGC_WP(t, p4, v); break;
    case 5: GGC_WP(t, p5, v); break;
    case 6: GGC_WP(t, p6, v); break;
    case 7: GGC_WP(t, p7, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T49(void *o, int k) { T49 t = (T49) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    case 1: return GGC_RP(t, p1);
    case 2: return GGC_RP(t, p2);
    case 3: return GGC_RP(t, p3);
    case 4: return GGC_RP(t, p4);
    case 5: return GGC_RP(t, p5);
    case 6: return GGC_RP(t, p6);
    case 7: return GGC_RP(t, p7);
    default: return NULL; } }
static void setd_T49(void *o, uint64_t s) { T49 t = (T49) o; { size_t v = s; GGC_WD(t, id, v); }
    { size_t v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
}
static int chkd_T49(void *o, uint64_t s) { T49 t = (T49) o; if (GGC_RD(t, id) != s) return -1;
    { size_t v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    return 0; }
static int zero_T49(void *o) { T49 t = (T49) o; if (GGC_RP(t, p0)) return 1; if (GGC_RP(t, p1)) return 1; if (GGC_RP(t, p2)) return 1; if (GGC_RP(t, p3)) return 1; if (GGC_RP(t, p4)) return 1; if (GGC_RP(t, p5)) return 1; if (GGC_RP(t, p6)) return 1; if (GGC_RP(t, p7)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T49[] = { offsetof(struct T49__ggggc_struct, p0__ptr) / sizeof(size_t), offsetof(struct T49__ggggc_struct, p1__ptr) / sizeof(size_t), offsetof(struct T49__ggggc_struct, p2__ptr) / sizeof(size_t), offsetof(struct T49__ggggc_struct, p3__ptr) / sizeof(size_t), offsetof(struct T49__ggggc_struct, p4__ptr) / sizeof(size_t), offsetof(struct T49__ggggc_struct, p5__ptr) / sizeof(size_t), offsetof(struct T49__ggggc_struct, p6__ptr) / sizeof(size_t), offsetof(struct T49__ggggc_struct, p7__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T50)
    GGC_MDATA(size_t, id);
    GGC_MPTR(Leaf, p0);
    GGC_MPTR(Leaf, p1);
    GGC_MPTR(Leaf, p2);
    GGC_MPTR(Leaf, p3);
    GGC_MPTR(Leaf, p4);
    GGC_MDATA(size_t, d0);
    GGC_MDATA(size_t, d1);
    GGC_MPTR(Leaf, p5);
    GGC_MPTR(Leaf, p6);
    GGC_MPTR(Leaf, p7);
    GGC_MPTR(Leaf, p8);
    GGC_MDATA(float, d2);
    GGC_MDATA(float, d3);
    GGC_MDATA(long, d4);
    GGC_MPTR(Leaf, p9);
    GGC_MDATA(short, d5);
    GGC_MDATA(short, d6);
    GGC_MDATA(short, d7);
    GGC_MDATA(short, d8);
    GGC_MPTR(Leaf, p10);
    GGC_MDATA(unsigned, d9);
    GGC_MDATA(unsigned, d10);
    GGC_MDATA(double, d11);
    GGC_MPTR(Leaf, p11);
    GGC_MPTR(Leaf, p12);
    GGC_MDATA(GGC_voidp, d12);
    GGC_MDATA(size_t, d13);
    GGC_MPTR(Leaf, p13);
    GGC_MPTR(Leaf, p14);
    GGC_MPTR(Leaf, p15);
    GGC_MDATA(size_t, d14);
    GGC_MDATA(double, d15);
    GGC_MDATA(long, d16);
    GGC_MPTR(Leaf, p16);
    GGC_MPTR(Leaf, p17);
GGC_END_TYPE(T50,
    GGC_PTR(T50, p0)
    GGC_PTR(T50, p1)
    GGC_PTR(T50, p2)
    GGC_PTR(T50, p3)
    GGC_PTR(T50, p4)
    GGC_PTR(T50, p5)
    GGC_PTR(T50, p6)
    GGC_PTR(T50, p7)
    GGC_PTR(T50, p8)
    GGC_PTR(T50, p9)
    GGC_PTR(T50, p10)
    GGC_PTR(T50, p11)
    GGC_PTR(T50, p12)
    GGC_PTR(T50, p13)
    GGC_PTR(T50, p14)
    GGC_PTR(T50, p15)
    GGC_PTR(T50, p16)
    GGC_PTR(T50, p17)
    )
static void *new_T50(void) { return GGC_NEW(T50); }
static void setp_T50(void *o, int k, Leaf v) { T50 t = (T50) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    case 1: GGC_WP(t, p1, v); break;
    case 2: GGC_WP(t, p2, v); break;
    case 3: GGC_WP(t, p3, v); break;
    case 4: GGC_WP(t, p4, v); break;
    case 5: GGC_WP(t, p5, v); break;
    case 6: GGC_WP(t, p6, v); break;
    case 7: GGC_WP(t, p7, v); break;
    case 8: GGC_WP(t, p8, v); break;
    case 9: GGC_WP(t, p9, v); break;
    case 10: GGC_WP(t, p10, v); break;
    case 11: GGC_WP(t, p11, v); break;
    case 12: GGC_WP(t, p12, v); break;
    case 13: GGC_WP(t, p13, v); break;
    case 14: GGC_WP(t, p14, v); break;
    case 15: GGC_WP(t, p15, v); break;
    case 16: GGC_WP(t, p16, v); break;
    case 17: GGC_WP(t, p17, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T50(void *o, int k) { T50 t = (T50) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    case 1: return GGC_RP(t, p1);
    case 2: return GGC_RP(t, p2);
    case 3: return GGC_RP(t, p3);
    case 4: return GGC_RP(t, p4);
    case 5: return GGC_RP(t, p5);
    case 6: return GGC_RP(t, p6);
    case 7: return GGC_RP(t, p7);
    case 8: return GGC_RP(t, p8);
    case 9: return GGC_RP(t, p9);
    case 10: return GGC_RP(t, p10);
    case 11: return GGC_RP(t, p11);
    case 12: return GGC_RP(t, p12);
    case 13: return GGC_RP(t, p13);
    case 14: return GGC_RP(t, p14);
    case 15: return GGC_RP(t, p15);
    case 16: return GGC_RP(t, p16);
    case 17: return GGC_RP(t, p17);
    default: return NULL; } }
static void setd_T50(void *o, uint64_t s) { T50 t = (T50) o; { size_t v = s; GGC_WD(t, id, v); }
    { size_t v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { size_t v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { float v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { float v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { long v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { short v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { short v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { short v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { short v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { unsigned v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { unsigned v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { double v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { size_t v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { size_t v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { double v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { long v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
}
static int chkd_T50(void *o, uint64_t s) { T50 t = (T50) o; if (GGC_RD(t, id) != s) return -1;
    { size_t v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { size_t v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { float v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { float v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { long v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { short v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { short v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { short v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { short v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { unsigned v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { unsigned v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { double v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { GGC_voidp v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { size_t v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { size_t v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { double v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { long v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    return 0; }
static int zero_T50(void *o) { T50 t = (T50) o; if (GGC_RP(t, p0)) return 1; if (GGC_RP(t, p1)) return 1; if (GGC_RP(t, p2)) return 1; if (GGC_RP(t, p3)) return 1; if (GGC_RP(t, p4)) return 1; if (GGC_RP(t, p5)) return 1; if (GGC_RP(t, p6)) return 1; if (GGC_RP(t, p7)) return 1; if (GGC_RP(t, p8)) return 1; if (GGC_RP(t, p9)) return 1; if (GGC_RP(t, p10)) return 1; if (GGC_RP(t, p11)) return 1; if (GGC_RP(t, p12)) return 1; if (GGC_RP(t, p13)) return 1; if (GGC_RP(t, p14)) return 1; if (GGC_RP(t, p15)) return 1; if (GGC_RP(t, p16)) return 1; if (GGC_RP(t, p17)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T50[] = { offsetof(struct T50__ggggc_struct, p0__ptr) / sizeof(size_t), offsetof(struct T50__ggggc_struct, p1__ptr) / sizeof(size_t), offsetof(struct T50__ggggc_struct, p2__ptr) / sizeof(size_t), offsetof(struct T50__ggggc_struct, p3__ptr) / sizeof(size_t), offsetof(struct T50__ggggc_struct, p4__ptr) / sizeof(size_t), offsetof(struct T50__ggggc_struct, p5__ptr) / sizeof(size_t), offsetof(struct T50__ggggc_struct, p6__ptr) / sizeof(size_t), offsetof(struct T50__ggggc_struct, p7__ptr) / sizeof(size_t), offsetof(struct T50__ggggc_struct, p8__ptr) / sizeof(size_t), offsetof(struct T50__ggggc_struct, p9__ptr) / sizeof(size_t), offsetof(struct T50__ggggc_struct, p10__ptr) / sizeof(size_t), offsetof(struct T50__ggggc_struct, p11__ptr) / sizeof(size_t), offsetof(struct T50__ggggc_struct, p12__ptr) / sizeof(size_t), offsetof(struct T50__ggggc_struct, p13__ptr) / sizeof(size_t), offsetof(struct T50__ggggc_struct, p14__ptr) / sizeof(size_t), offsetof(struct T50__ggggc_struct, p15__ptr) / sizeof(size_t), offsetof(struct T50__ggggc_struct, p16__ptr) / sizeof(size_t), offsetof(struct T50__ggggc_struct, p17__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T51)
    GGC_MDATA(size_t, id);
    GGC_MDATA(double, d0);
    GGC_MPTR(Leaf, p0);
    GGC_MDATA(size_t, d1);
    GGC_MPTR(Leaf, p1);
    GGC_MPTR(Leaf, p2);
    GGC_MDATA(GGC_voidp, d2);
    GGC_MDATA(double, d3);
    GGC_MPTR(Leaf, p3);
    GGC_MPTR(Leaf, p4);
    GGC_MDATA(Tri, d4);
    GGC_MDATA(Tri, d5);
    GGC_MDATA(short, d6);
    GGC_MDATA(GGC_voidp, d7);
    GGC_MDATA(GGC_voidp, d8);
    GGC_MPTR(Leaf, p5);
    GGC_MPTR(Leaf, p6);
    GGC_MDATA(int, d9);
    GGC_MDATA(int, d10);
    GGC_MDATA(char, d11);
    GGC_MDATA(char, d12);
    GGC_MDATA(char, d13);
    GGC_MDATA(char, d14);
    GGC_MDATA(char, d15);
    GGC_MDATA(char, d16);
    GGC_MDATA(char, d17);
    GGC_MDATA(char, d18);
    GGC_MPTR(Leaf, p7);
    GGC_MDATA(long, d19);
    GGC_MPTR(Leaf, p8);
    GGC_MDATA(Big3, d20);
    GGC_MPTR(Leaf, p9);
    GGC_MPTR(Leaf, p10);
    GGC_MDATA(GGC_voidp, d21);
    GGC_MDATA(GGC_voidp, d22);
    GGC_MPTR(Leaf, p11);
    GGC_MDATA(unsigned, d23);
    GGC_MDATA(unsigned, d24);
    GGC_MDATA(int, d25);
    GGC_MDATA(int, d26);
    GGC_MPTR(Leaf, p12);
    GGC_MDATA(int, d27);
    GGC_MDATA(int, d28);
GGC_END_TYPE(T51,
    GGC_PTR(T51, p0)
    GGC_PTR(T51, p1)
    GGC_PTR(T51, p2)
    GGC_PTR(T51, p3)
    GGC_PTR(T51, p4)
    GGC_PTR(T51, p5)
    GGC_PTR(T51, p6)
    GGC_PTR(T51, p7)
    GGC_PTR(T51, p8)
    GGC_PTR(T51, p9)
    GGC_PTR(T51, p10)
    GGC_PTR(T51, p11)
    GGC_PTR(T51, p12)
    )
static void *new_T51(void) { return GGC_NEW(T51); }
static void setp_T51(void *o, int k, Leaf v) { T51 t = (T51) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    case 1: GGC_WP(t, p1, v); break;
    case 2: GGC_WP(t, p2, v); break;
    case 3: GGC_WP(t, p3, v); break;
    case 4: GGC_WP(t, p4, v); break;
    case 5: GGC_WP(t, p5, v); break;
    case 6: GGC_WP(t, p6, v); break;
    case 7: GGC_WP(t, p7, v); break;
    case 8: GGC_WP(t, p8, v); break;
    case 9: GGC_WP(t, p9, v); break;
    case 10: GGC_WP(t, p10, v); break;
    case 11: GGC_WP(t, p11, v); break;
    case 12: GGC_WP(t, p12, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T51(void *o, int k) { T51 t = (T51) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    case 1: return GGC_RP(t, p1);
    case 2: return GGC_RP(t, p2);
    case 3: return GGC_RP(t, p3);
    case 4: return GGC_RP(t, p4);
    case 5: return GGC_RP(t, p5);
    case 6: return GGC_RP(t, p6);
    case 7: return GGC_RP(t, p7);
    case 8: return GGC_RP(t, p8);
    case 9: return GGC_RP(t, p9);
    case 10: return GGC_RP(t, p10);
    case 11: return GGC_RP(t, p11);
    case 12: return GGC_RP(t, p12);
    default: return NULL; } }
static void setd_T51(void *o, uint64_t s) { T51 t = (T51) o; { size_t v = s; GGC_WD(t, id, v); }
    { double v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { size_t v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { double v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { Tri v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { Tri v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { short v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { int v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { int v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { char v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { char v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { char v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { char v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { char v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { char v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { char v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { char v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { long v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { Big3 v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { unsigned v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { unsigned v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { int v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { int v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { int v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { int v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
}
static int chkd_T51(void *o, uint64_t s) { T51 t = (T51) o; if (GGC_RD(t, id) != s) return -1;
    { double v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { size_t v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { GGC_voidp v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { double v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { Tri v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { Tri v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { short v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { GGC_voidp v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { GGC_voidp v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { int v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { int v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { char v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { char v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { char v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { char v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { char v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { char v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { char v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { char v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { long v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { Big3 v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { GGC_voidp v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { GGC_voidp v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { unsigned v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { unsigned v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { int v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { int v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { int v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { int v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    return 0; }
static int zero_T51(void *o) { T51 t = (T51) o; if (GGC_RP(t, p0)) return 1; if (GGC_RP(t, p1)) return 1; if (GGC_RP(t, p2)) return 1; if (GGC_RP(t, p3)) return 1; if (GGC_RP(t, p4)) return 1; if (GGC_RP(t, p5)) return 1; if (GGC_RP(t, p6)) return 1; if (GGC_RP(t, p7)) return 1; if (GGC_RP(t, p8)) return 1; if (GGC_RP(t, p9)) return 1; if (GGC_RP(t, p10)) return 1; if (GGC_RP(t, p11)) return 1; if (GGC_RP(t, p12)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T51[] = { offsetof(struct T51__ggggc_struct, p0__ptr) / sizeof(size_t), offsetof(struct T51__ggggc_struct, p1__ptr) / sizeof(size_t), offsetof(struct T51__ggggc_struct, p2__ptr) / sizeof(size_t), offsetof(struct T51__ggggc_struct, p3__ptr) / sizeof(size_t), offsetof(struct T51__ggggc_struct, p4__ptr) / sizeof(size_t), offsetof(struct T51__ggggc_struct, p5__ptr) / sizeof(size_t), offsetof(struct T51__ggggc_struct, p6__ptr) / sizeof(size_t), offsetof(struct T51__ggggc_struct, p7__ptr) / sizeof(size_t), offsetof(struct T51__ggggc_struct, p8__ptr) / sizeof(size_t), offsetof(struct T51__ggggc_struct, p9__ptr) / sizeof(size_t), offsetof(struct T51__ggggc_struct, p10__ptr) / sizeof(size_t), offsetof(struct T51__ggggc_struct, p11__ptr) / sizeof(size_t), offsetof(struct T51__ggggc_struct, p12__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T52)
    GGC_MDATA(size_t, id);
    GGC_MPTR(Leaf, p0);
    GGC_MDATA(long, d0);
    GGC_MDATA(float, d1);
    GGC_MDATA(float, d2);
    GGC_MPTR(Leaf, p1);
    GGC_MPTR(Leaf, p2);
    GGC_MPTR(Leaf, p3);
    GGC_MDATA(float, d3);
    GGC_MDATA(float, d4);
    GGC_MDATA(GGC_voidp, d5);
    GGC_MDATA(GGC_voidp, d6);
    GGC_MDATA(short, d7);
    GGC_MDATA(short, d8);
    GGC_MDATA(short, d9);
    GGC_MDATA(short, d10);
    GGC_MPTR(Leaf, p4);
    GGC_MPTR(Leaf, p5);
    GGC_MPTR(Leaf, p6);
    GGC_MPTR(Leaf, p7);
    GGC_MDATA(size_t, d11);
    GGC_MPTR(Leaf, p8);
    GGC_MDATA(size_t, d12);
    GGC_MDATA(long, d13);
    GGC_MPTR(Leaf, p9);
    GGC_MPTR(Leaf, p10);
    GGC_MPTR(Leaf, p11);
    GGC_MDATA(size_t, d14);
    GGC_MDATA(unsigned, d15);
    GGC_MDATA(unsigned, d16);
    GGC_MPTR(Leaf, p12);
    GGC_MDATA(GGC_voidp, d17);
    GGC_MDATA(GGC_voidp, d18);
    GGC_MDATA(double, d19);
    GGC_MDATA(long, d20);
    GGC_MDATA(unsigned, d21);
    GGC_MDATA(unsigned, d22);
    GGC_MPTR(Leaf, p13);
    GGC_MPTR(Leaf, p14);
    GGC_MDATA(float, d23);
    GGC_MDATA(float, d24);
    GGC_MPTR(Leaf, p15);
GGC_END_TYPE(T52,
    GGC_PTR(T52, p0)
    GGC_PTR(T52, p1)
    GGC_PTR(T52, p2)
    GGC_PTR(T52, p3)
    GGC_PTR(T52, p4)
    GGC_PTR(T52, p5)
    GGC_PTR(T52, p6)
    GGC_PTR(T52, p7)
    GGC_PTR(T52, p8)
    GGC_PTR(T52, p9)
    GGC_PTR(T52, p10)
    GGC_PTR(T52, p11)
    GGC_PTR(T52, p12)
    GGC_PTR(T52, p13)
    GGC_PTR(T52, p14)
    GGC_PTR(T52, p15)
    )
static void *new_T52(void) { return GGC_NEW(T52); }
static void setp_T52(void *o, int k, Leaf v) { T52 t = (T52) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    case 1: GGC_WP(t, p1, v); break;
    case 2: GGC_WP(t, p2, v); break;
    case 3: GGC_WP(t, p3, v); break;
    case 4: GGC_WP(t, p4, v); break;
    case 5: GGC_WP(t, p5, v); break;
    case 6: GGC_WP(t, p6, v); break;
    case 7: GGC_WP(t, p7, v); break;
    case 8: GGC_WP(t, p8, v); break;
    case 9: GGC_WP(t, p9, v); break;
    case 10: GGC_WP(t, p10, v); break;
    case 11: GGC_WP(t, p11, v); break;
    case 12: GGC_WP(t, p12, v); break;
    case 13: GGC_WP(t, p13, v); break;
    case 14: GGC_WP(t, p14, v); break;
    case 15: GGC_WP(t, p15, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T52(void *o, int k) { T52 t = (T52) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    case 1: return GGC_RP(t, p1);
    case 2: return GGC_RP(t, p2);
    case 3: return GGC_RP(t, p3);
    case 4: return GGC_RP(t, p4);
    case 5: return GGC_RP(t, p5);
    case 6: return GGC_RP(t, p6);
    case 7: return GGC_RP(t, p7);
    case 8: return GGC_RP(t, p8);
    case 9: return GGC_RP(t, p9);
    case 10: return GGC_RP(t, p10);
    case 11: return GGC_RP(t, p11);
    case 12: return GGC_RP(t, p12);
    case 13: return GGC_RP(t, p13);
    case 14: return GGC_RP(t, p14);
    case 15: return GGC_RP(t, p15);
    default: return NULL; } }
static void setd_T52(void *o, uint64_t s) { T52 t = (T52) o; { size_t v = s; GGC_WD(t, id, v); }
    { long v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { float v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { float v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { float v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { float v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { short v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { short v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { short v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { short v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { size_t v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { size_t v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { long v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { size_t v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { unsigned v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { unsigned v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { double v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { long v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { unsigned v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { unsigned v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { float v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { float v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
}
static int chkd_T52(void *o, uint64_t s) { T52 t = (T52) o; if (GGC_RD(t, id) != s) return -1;
    { long v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { float v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { float v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { float v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { float v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { GGC_voidp v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { GGC_voidp v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { short v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { short v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { short v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { short v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { size_t v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { size_t v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { long v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { size_t v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { unsigned v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { unsigned v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { GGC_voidp v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { GGC_voidp v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { double v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { long v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { unsigned v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { unsigned v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { float v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { float v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    return 0; }
static int zero_T52(void *o) { T52 t = (T52) o; if (GGC_RP(t, p0)) return 1; if (GGC_RP(t, p1)) return 1; if (GGC_RP(t, p2)) return 1; if (GGC_RP(t, p3)) return 1; if (GGC_RP(t, p4)) return 1; if (GGC_RP(t, p5)) return 1; if (GGC_RP(t, p6)) return 1; if (GGC_RP(t, p7)) return 1; if (GGC_RP(t, p8)) return 1; if (GGC_RP(t, p9)) return 1; if (GGC_RP(t, p10)) return 1; if (GGC_RP(t, p11)) return 1; if (GGC_RP(t, p12)) return 1; if (GGC_RP(t, p13)) return 1; if (GGC_RP(t, p14)) return 1; if (GGC_RP(t, p15)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T52[] = { offsetof(struct T52__ggggc_struct, p0__ptr) / sizeof(size_t), offsetof(struct T52__ggggc_struct, p1__ptr) / sizeof(size_t), offsetof(struct T52__ggggc_struct, p2__ptr) / sizeof(size_t), offsetof(struct T52__ggggc_struct, p3__ptr) / sizeof(size_t), offsetof(struct T52__ggggc_struct, p4__ptr) / sizeof(size_t), offsetof(struct T52__ggggc_struct, p5__ptr) / sizeof(size_t), offsetof(struct T52__ggggc_struct, p6__ptr) / sizeof(size_t), offsetof(struct T52__ggggc_struct, p7__ptr) / sizeof(size_t), offsetof(struct T52__ggggc_struct, p8__ptr) / sizeof(size_t), offsetof(struct T52__ggggc_struct, p9__ptr) / sizeof(size_t), offsetof(struct T52__ggggc_struct, p10__ptr) / sizeof(size_t), offsetof(struct T52__ggggc_struct, p11__ptr) / sizeof(size_t), offsetof(struct T52__ggggc_struct, p12__ptr) / sizeof(size_t), offsetof(struct T52__ggggc_struct, p13__ptr) / sizeof(size_t), offsetof(struct T52__ggggc_struct, p14__ptr) / sizeof(size_t), offsetof(struct T52__ggggc_struct, p15__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T53)
    GGC_MDATA(size_t, id);
    GGC_MDATA(double, d0);
    GGC_MDATA(size_t, d1);
    GGC_MPTR(Leaf, p0);
    GGC_MPTR(Leaf, p1);
    GGC_MPTR(Leaf, p2);
    GGC_MPTR(Leaf, p3);
    GGC_MDATA(double, d2);
    GGC_MDATA(float, d3);
    GGC_MDATA(float, d4);
    GGC_MPTR(Leaf, p4);
    GGC_MPTR(Leaf, p5);
    GGC_MPTR(Leaf, p6);
    GGC_MPTR(Leaf, p7);
    GGC_MDATA(int, d5);
    GGC_MDATA(int, d6);
    GGC_MDATA(float, d7);
    GGC_MDATA(float, d8);
    GGC_MDATA(Tri, d9);
    GGC_MDATA(Tri, d10);
    GGC_MDATA(short, d11);
    GGC_MDATA(double, d12);
    GGC_MDATA(long, d13);
    GGC_MDATA(Tri, d14);
    GGC_MDATA(Tri, d15);
    GGC_MDATA(short, d16);
    GGC_MDATA(size_t, d17);
    GGC_MDATA(GGC_voidp, d18);
    GGC_MPTR(Leaf, p8);
    GGC_MDATA(unsigned, d19);
    GGC_MDATA(unsigned, d20);
    GGC_MPTR(Leaf, p9);
    GGC_MPTR(Leaf, p10);
    GGC_MPTR(Leaf, p11);
    GGC_MPTR(Leaf, p12);
    GGC_MPTR(Leaf, p13);
    GGC_MPTR(Leaf, p14);
    GGC_MPTR(Leaf, p15);
    GGC_MDATA(GGC_voidp, d21);
    GGC_MDATA(double, d22);
    GGC_MDATA(short, d23);
    GGC_MDATA(short, d24);
    GGC_MDATA(short, d25);
    GGC_MDATA(short, d26);
    GGC_MDATA(char, d27);
    GGC_MDATA(char, d28);
    GGC_MDATA(char, d29);
    GGC_MDATA(char, d30);
    GGC_MDATA(char, d31);
    GGC_MDATA(char, d32);
    GGC_MDATA(char, d33);
    GGC_MDATA(char, d34);
    GGC_MDATA(GGC_voidp, d35);
    GGC_MDATA(size_t, d36);
    GGC_MPTR(Leaf, p16);
    GGC_MPTR(Leaf, p17);
    GGC_MDATA(size_t, d37);
    GGC_MDATA(double, d38);
    GGC_MPTR(Leaf, p18);
    GGC_MPTR(Leaf, p19);
    GGC_MDATA(float, d39);
    GGC_MDATA(float, d40);
    GGC_MDATA(float, d41);
    GGC_MDATA(float, d42);
    GGC_MPTR(Leaf, p20);
    GGC_MDATA(size_t, d43);
    GGC_MPTR(Leaf, p21);
    GGC_MDATA(short, d44);
    GGC_MDATA(short, d45);
    GGC_MDATA(short, d46);
    GGC_MDATA(short, d47);
    GGC_MDATA(long, d48);
    GGC_MPTR(Leaf, p22);
    GGC_MDATA(GGC_voidp, d49);
    GGC_MDATA(char, d50);
    GGC_MDATA(char, d51);
    GGC_MDATA(char, d52);
    GGC_MDATA(char, d53);
    GGC_MDATA(char, d54);
    GGC_MDATA(char, d55);
    GGC_MDATA(char, d56);
    GGC_MDATA(char, d57);
    GGC_MDATA(char, d58);
    GGC_MDATA(char, d59);
    GGC_MDATA(char, d60);
    GGC_MDATA(char, d61);
    GGC_MDATA(char, d62);
    GGC_MDATA(char, d63);
    GGC_MDATA(char, d64);
    GGC_MDATA(char, d65);
    GGC_MPTR(Leaf, p23);
    GGC_MPTR(Leaf, p24);
    GGC_MPTR(Leaf, p25);
    GGC_MDATA(unsigned, d66);
    GGC_MDATA(unsigned, d67);
    GGC_MPTR(Leaf, p26);
    GGC_MPTR(Leaf, p27);
GGC_END_TYPE(T53,
    GGC_PTR(T53, p0)
    GGC_PTR(T53, p1)
    GGC_PTR(T53, p2)
    GGC_PTR(T53, p3)
    GGC_PTR(T53, p4)
    GGC_PTR(T53, p5)
    GGC_PTR(T53, p6)
    GGC_PTR(T53, p7)
    GGC_PTR(T53, p8)
    GGC_PTR(T53, p9)
    GGC_PTR(T53, p10)
    GGC_PTR(T53, p11)
    GGC_PTR(T53, p12)
    GGC_PTR(T53, p13)
    GGC_PTR(T53, p14)
    GGC_PTR(T53, p15)
    GGC_PTR(T53, p16)
    GGC_PTR(T53, p17)
    GGC_PTR(T53, p18)
    GGC_PTR(T53, p19)
    GGC_PTR(T53, p20)
    GGC_PTR(T53, p21)
    GGC_PTR(T53, p22)
    GGC_PTR(T53, p23)
    GGC_PTR(T53, p24)
    GGC_PTR(T53, p25)
    GGC_PTR(T53, p26)
    GGC_PTR(T53, p27)
    )
static void *new_T53(void) { return GGC_NEW(T53); }
static void setp_T53(void *o, int k, Leaf v) { T53 t = (T53) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    case 1: GGC_WP(t, p1, v); break;
    case 2: GGC_WP(t, p2, v); break;
    case 3: GGC_WP(t, p3, v); break;
    case 4: GGC_WP(t, p4, v); break;
    case 5: GGC_WP(t, p5, v); break;
    case 6: GGC_WP(t, p6, v); break;
    case 7: GGC_WP(t, p7, v); break;
    case 8: GGC_WP(t, p8, v); break;
    case 9: GGC_WP(t, p9, v); break;
    case 10: GGC_WP(t, p10, v); break;
    case 11: GGC_WP(t, p11, v); break;
    case 12: GGC_WP(t, p12, v); break;
    case 13: GGC_WP(t, p13, v); break;
    case 14: GGC_WP(t, p14, v); break;
    case 15: GGC_WP(t, p15, v); break;
    case 16: GGC_WP(t, p16, v); break;
    case 17: GGC_WP(t, p17, v); break;
    case 18: GGC_WP(t, p18, v); break;
    case 19: GGC_WP(t, p19, v); break;
    case 20: GGC_WP(t, p20, v); break;
    case 21: GGC_WP(t, p21, v); break;
    case 22: GGC_WP(t, p22, v); break;
    case 23: GGC_WP(t, p23, v); break;
    case 24: GGC_WP(t, p24, v); break;
    case 25: GGC_WP(t, p25, v); break;
    case 26: GGC_WP(t, p26, v); break;
    case 27: GGC_WP(t, p27, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T53(void *o, int k) { T53 t = (T53) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    case 1: return GGC_RP(t, p1);
    case 2: return GGC_RP(t, p2);
    case 3: return GGC_RP(t, p3);
    case 4: return GGC_RP(t, p4);
    case 5: return GGC_RP(t, p5);
    case 6: return GGC_RP(t, p6);
    case 7: return GGC_RP(t, p7);
    case 8: return GGC_RP(t, p8);
    case 9: return GGC_RP(t, p9);
    case 10: return GGC_RP(t, p10);
    case 11: return GGC_RP(t, p11);
    case 12: return GGC_RP(t, p12);
    case 13: return GGC_RP(t, p13);
    case 14: return GGC_RP(t, p14);
    case 15: return GGC_RP(t, p15);
    case 16: return GGC_RP(t, p16);
    case 17: return GGC_RP(t, p17);
    case 18: return GGC_RP(t, p18);
    case 19: return GGC_RP(t, p19);
    case 20: return GGC_RP(t, p20);
    case 21: return GGC_RP(t, p21);
    case 22: return GGC_RP(t, p22);
    case 23: return GGC_RP(t, p23);
    case 24: return GGC_RP(t, p24);
    case 25: return GGC_RP(t, p25);
    case 26: return GGC_RP(t, p26);
    case 27: return GGC_RP(t, p27);
    default: return NULL; } }
static void setd_T53(void *o, uint64_t s) { T53 t = (T53) o; { size_t v = s; GGC_WD(t, id, v); }
    { double v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { size_t v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { double v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { float v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { float v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { int v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { int v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { float v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { float v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { Tri v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { Tri v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { short v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { double v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { long v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { Tri v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { Tri v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { short v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { size_t v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { unsigned v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { unsigned v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { double v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { short v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { short v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { short v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { short v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { char v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { char v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { char v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { char v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { char v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { char v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { char v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { char v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { size_t v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
    { size_t v; bits(&v, sizeof(v), s, 37); GGC_WD(t, d37, v); }
    { double v; bits(&v, sizeof(v), s, 38); GGC_WD(t, d38, v); }
    { float v; bits(&v, sizeof(v), s, 39); GGC_WD(t, d39, v); }
    { float v; bits(&v, sizeof(v), s, 40); GGC_WD(t, d40, v); }
    { float v; bits(&v, sizeof(v), s, 41); GGC_WD(t, d41, v); }
    { float v; bits(&v, sizeof(v), s, 42); GGC_WD(t, d42, v); }
    { size_t v; bits(&v, sizeof(v), s, 43); GGC_WD(t, d43, v); }
    { short v; bits(&v, sizeof(v), s, 44); GGC_WD(t, d44, v); }
    { short v; bits(&v, sizeof(v), s, 45); GGC_WD(t, d45, v); }
    { short v; bits(&v, sizeof(v), s, 46); GGC_WD(t, d46, v); }
    { short v; bits(&v, sizeof(v), s, 47); GGC_WD(t, d47, v); }
    { long v; bits(&v, sizeof(v), s, 48); GGC_WD(t, d48, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 49); GGC_WD(t, d49, v); }
    { char v; bits(&v, sizeof(v), s, 50); GGC_WD(t, d50, v); }
    { char v; bits(&v, sizeof(v), s, 51); GGC_WD(t, d51, v); }
    { char v; bits(&v, sizeof(v), s, 52); GGC_WD(t, d52, v); }
    { char v; bits(&v, sizeof(v), s, 53); GGC_WD(t, d53, v); }
    { char v; bits(&v, sizeof(v), s, 54); GGC_WD(t, d54, v); }
    { char v; bits(&v, sizeof(v), s, 55); GGC_WD(t, d55, v); }
    { char v; bits(&v, sizeof(v), s, 56); GGC_WD(t, d56, v); }
    { char v; bits(&v, sizeof(v), s, 57); GGC_WD(t, d57, v); }
    { char v; bits(&v, sizeof(v), s, 58); GGC_WD(t, d58, v); }
    { char v; bits(&v, sizeof(v), s, 59); GGC_WD(t, d59, v); }
    { char v; bits(&v, sizeof(v), s, 60); GGC_WD(t, d60, v); }
    { char v; bits(&v, sizeof(v), s, 61); GGC_WD(t, d61, v); }
    { char v; bits(&v, sizeof(v), s, 62); GGC_WD(t, d62, v); }
    { char v; bits(&v, sizeof(v), s, 63); GGC_WD(t, d63, v); }
    { char v; bits(&v, sizeof(v), s, 64); GGC_WD(t, d64, v); }
    { char v; bits(&v, sizeof(v), s, 65); GGC_WD(t, d65, v); }
    { unsigned v; bits(&v, sizeof(v), s, 66); GGC_WD(t, d66, v); }
    { unsigned v; bits(&v, sizeof(v), s, 67); GGC_WD(t, d67, v); }
}
static int chkd_T53(void *o, uint64_t s) { T53 t = (T53) o; if (GGC_RD(t, id) != s) return -1;
    { double v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { size_t v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { double v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { float v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { float v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { int v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { int v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { float v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { float v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { Tri v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { Tri v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { short v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { double v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { long v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { Tri v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { Tri v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { short v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { size_t v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { GGC_voidp v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { unsigned v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { unsigned v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { GGC_voidp v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { double v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { short v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { short v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { short v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { short v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { char v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { char v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { char v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { char v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { char v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { char v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { char v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { char v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { GGC_voidp v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { size_t v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    { size_t v = GGC_RD(t, d37); if (!same(&v, sizeof(v), s, 37)) return 38; }
    { double v = GGC_RD(t, d38); if (!same(&v, sizeof(v), s, 38)) return 39; }
    { float v = GGC_RD(t, d39); if (!same(&v, sizeof(v), s, 39)) return 40; }
    { float v = GGC_RD(t, d40); if (!same(&v, sizeof(v), s, 40)) return 41; }
    { float v = GGC_RD(t, d41); if (!same(&v, sizeof(v), s, 41)) return 42; }
    { float v = GGC_RD(t, d42); if (!same(&v, sizeof(v), s, 42)) return 43; }
    { size_t v = GGC_RD(t, d43); if (!same(&v, sizeof(v), s, 43)) return 44; }
    { short v = GGC_RD(t, d44); if (!same(&v, sizeof(v), s, 44)) return 45; }
    { short v = GGC_RD(t, d45); if (!same(&v, sizeof(v), s, 45)) return 46; }
    { short v = GGC_RD(t, d46); if (!same(&v, sizeof(v), s, 46)) return 47; }
    { short v = GGC_RD(t, d47); if (!same(&v, sizeof(v), s, 47)) return 48; }
    { long v = GGC_RD(t, d48); if (!same(&v, sizeof(v), s, 48)) return 49; }
    { GGC_voidp v = GGC_RD(t, d49); if (!same(&v, sizeof(v), s, 49)) return 50; }
    { char v = GGC_RD(t, d50); if (!same(&v, sizeof(v), s, 50)) return 51; }
    { char v = GGC_RD(t, d51); if (!same(&v, sizeof(v), s, 51)) return 52; }
    { char v = GGC_RD(t, d52); if (!same(&v, sizeof(v), s, 52)) return 53; }
    { char v = GGC_RD(t, d53); if (!same(&v, sizeof(v), s, 53)) return 54; }
    { char v = GGC_RD(t, d54); if (!same(&v, sizeof(v), s, 54)) return 55; }
    { char v = GGC_RD(t, d55); if (!same(&v, sizeof(v), s, 55)) return 56; }
    { char v = GGC_RD(t, d56); if (!same(&v, sizeof(v), s, 56)) return 57; }
    { char v = GGC_RD(t, d57); if (!same(&v, sizeof(v), s, 57)) return 58; }
    { char v = GGC_RD(t, d58); if (!same(&v, sizeof(v), s, 58)) return 59; }
    { char v = GGC_RD(t, d59); if (!same(&v, sizeof(v), s, 59)) return 60; }
    { char v = GGC_RD(t, d60); if (!same(&v, sizeof(v), s, 60)) return 61; }
    { char v = GGC_RD(t, d61); if (!same(&v, sizeof(v), s, 61)) return 62; }
    { char v = GGC_RD(t, d62); if (!same(&v, sizeof(v), s, 62)) return 63; }
    { char v = GGC_RD(t, d63); if (!same(&v, sizeof(v), s, 63)) return 64; }
    { char v = GGC_RD(t, d64); if (!same(&v, sizeof(v), s, 64)) return 65; }
    { char v = GGC_RD(t, d65); if (!same(&v, sizeof(v), s, 65)) return 66; }
    { unsigned v = GGC_RD(t, d66); if (!same(&v, sizeof(v), s, 66)) return 67; }
    { unsigned v = GGC_RD(t, d67); if (!same(&v, sizeof(v), s, 67)) return 68; }
    return 0; }
static int zero_T53(void *o) { T53 t = (T53) o; if (GGC_RP(t, p0)) return 1; if (GGC_RP(t, p1)) return 1; if (GGC_RP(t, p2)) return 1; if (GGC_RP(t, p3)) return 1; if (GGC_RP(t, p4)) return 1; if (GGC_RP(t, p5)) return 1; if (GGC_RP(t, p6)) return 1; if (GGC_RP(t, p7)) return 1; if (GGC_RP(t, p8)) return 1; if (GGC_RP(t, p9)) return 1; if (GGC_RP(t, p10)) return 1; if (GGC_RP(t, p11)) return 1; if (GGC_RP(t, p12)) return 1; if (GGC_RP(t, p13)) return 1; if (GGC_RP(t, p14)) return 1; if (GGC_RP(t, p15)) return 1; if (GGC_RP(t, p16)) return 1; if (GGC_RP(t, p17)) return 1; if (GGC_RP(t, p18)) return 1; if (GGC_RP(t, p19)) return 1; if (GGC_RP(t, p20)) return 1; if (GGC_RP(t, p21)) return 1; if (GGC_RP(t, p22)) return 1; if (GGC_RP(t, p23)) return 1; if (GGC_RP(t, p24)) return 1; if (GGC_RP(t, p25)) return 1; if (GGC_RP(t, p26)) return 1; if (GGC_RP(t, p27)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T53[] = { offsetof(struct T53__ggggc_struct, p0__ptr) / sizeof(size_t), offsetof(struct T53__ggggc_struct, p1__ptr) / sizeof(size_t), offsetof(struct T53__ggggc_struct, p2__ptr) / sizeof(size_t), offsetof(struct T53__ggggc_struct, p3__ptr) / sizeof(size_t), offsetof(struct T53__ggggc_struct, p4__ptr) / sizeof(size_t), offsetof(struct T53__ggggc_struct, p5__ptr) / sizeof(size_t), offsetof(struct T53__ggggc_struct, p6__ptr) / sizeof(size_t), offsetof(struct T53__ggggc_struct, p7__ptr) / sizeof(size_t), offsetof(struct T53__ggggc_struct, p8__ptr) / sizeof(size_t), offsetof(struct T53__ggggc_struct, p9__ptr) / sizeof(size_t), offsetof(struct T53__ggggc_struct, p10__ptr) / sizeof(size_t), offsetof(struct T53__ggggc_struct, p11__ptr) / sizeof(size_t), offsetof(struct T53__ggggc_struct, p12__ptr) / sizeof(size_t), offsetof(struct T53__ggggc_struct, p13__ptr) / sizeof(size_t), offsetof(struct T53__ggggc_struct, p14__ptr) / sizeof(size_t), offsetof(struct T53__ggggc_struct, p15__ptr) / sizeof(size_t), offsetof(struct T53__ggggc_struct, p16__ptr) / sizeof(size_t), offsetof(struct T53__ggggc_struct, p17__ptr) / sizeof(size_t), offsetof(struct T53__ggggc_struct, p18__ptr) / sizeof(size_t), offsetof(struct T53__ggggc_struct, p19__ptr) / sizeof(size_t), offsetof(struct T53__ggggc_struct, p20__ptr) / sizeof(size_t), offsetof(struct T53__ggggc_struct, p21__ptr) / sizeof(size_t), offsetof(struct T53__ggggc_struct, p22__ptr) / sizeof(size_t), offsetof(struct T53__ggggc_struct, p23__ptr) / sizeof(size_t), offsetof(struct T53__ggggc_struct, p24__ptr) / sizeof(size_t), offsetof(struct T53__ggggc_struct, p25__ptr) / sizeof(size_t), offsetof(struct T53__ggggc_struct, p26__ptr) / sizeof(size_t), offsetof(struct T53__ggggc_struct, p27__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T54)
    GGC_MDATA(size_t, id);
    GGC_MPTR(Leaf, p0);
    GGC_MDATA(GGC_voidp, d0);
    GGC_MPTR(Leaf, p1);
    GGC_MDATA(GGC_voidp, d1);
    GGC_MDATA(GGC_voidp, d2);
    GGC_MDATA(long, d3);
    GGC_MDATA(double, d4);
    GGC_MPTR(Leaf, p2);
    GGC_MPTR(Leaf, p3);
    GGC_MDATA(double, d5);
    GGC_MDATA(long, d6);
    GGC_MPTR(Leaf, p4);
    GGC_MDATA(double, d7);
    GGC_MPTR(Leaf, p5);
    GGC_MDATA(Big3, d8);
    GGC_MDATA(GGC_voidp, d9);
    GGC_MDATA(size_t, d10);
    GGC_MDATA(GGC_voidp, d11);
    GGC_MPTR(Leaf, p6);
    GGC_MDATA(GGC_voidp, d12);
    GGC_MDATA(int, d13);
    GGC_MDATA(int, d14);
    GGC_MPTR(Leaf, p7);
    GGC_MPTR(Leaf, p8);
    GGC_MDATA(double, d15);
    GGC_MPTR(Leaf, p9);
    GGC_MPTR(Leaf, p10);
    GGC_MPTR(Leaf, p11);
    GGC_MPTR(Leaf, p12);
    GGC_MPTR(Leaf, p13);
    GGC_MPTR(Leaf, p14);
    GGC_MDATA(unsigned, d16);
    GGC_MDATA(unsigned, d17);
    GGC_MDATA(long, d18);
    GGC_MPTR(Leaf, p15);
    GGC_MDATA(short, d19);
    GGC_MDATA(short, d20);
    GGC_MDATA(short, d21);
    GGC_MDATA(short, d22);
    GGC_MDATA(size_t, d23);
    GGC_MPTR(Leaf, p16);
    GGC_MPTR(Leaf, p17);
    GGC_MPTR(Leaf, p18);
    GGC_MPTR(Leaf, p19);
    GGC_MDATA(short, d24);
    GGC_MDATA(short, d25);
    GGC_MDATA(short, d26);
    GGC_MDATA(short, d27);
    GGC_MPTR(Leaf, p20);
    GGC_MPTR(Leaf, p21);
    GGC_MDATA(unsigned, d28);
    GGC_MDATA(unsigned, d29);
    GGC_MDATA(long, d30);
    GGC_MPTR(Leaf, p22);
    GGC_MDATA(size_t, d31);
    GGC_MPTR(Leaf, p23);
    GGC_MDATA(double, d32);
    GGC_MDATA(unsigned, d33);
    GGC_MDATA(unsigned, d34);
    GGC_MDATA(Big3, d35);
    GGC_MPTR(Leaf, p24);
    GGC_MPTR(Leaf, p25);
    GGC_MDATA(short, d36);
    GGC_MDATA(short, d37);
    GGC_MDATA(short, d38);
    GGC_MDATA(short, d39);
    GGC_MDATA(Big3, d40);
    GGC_MDATA(double, d41);
GGC_END_TYPE(T54,
    GGC_PTR(T54, p0)
    GGC_PTR(T54, p1)
    GGC_PTR(T54, p2)
    GGC_PTR(T54, p3)
    GGC_PTR(T54, p4)
    GGC_PTR(T54, p5)
    GGC_PTR(T54, p6)
    GGC_PTR(T54, p7)
    GGC_PTR(T54, p8)
    GGC_PTR(T54, p9)
    GGC_PTR(T54, p10)
    GGC_PTR(T54, p11)
    GGC_PTR(T54, p12)
    GGC_PTR(T54, p13)
    GGC_PTR(T54, p14)
    GGC_PTR(T54, p15)
    GGC_PTR(T54, p16)
    GGC_PTR(T54, p17)
    GGC_PTR(T54, p18)
    GGC_PTR(T54, p19)
    GGC_PTR(T54, p20)
    GGC_PTR(T54, p21)
    GGC_PTR(T54, p22)
    GGC_PTR(T54, p23)
    GGC_PTR(T54, p24)
    GGC_PTR(T54, p25)
    )
static void *new_T54(void) { return GGC_NEW(T54); }
static void setp_T54(void *o, int k, Leaf v) { T54 t = (T54) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    case 1: GGC_WP(t, p1, v); break;
    case 2: GGC_WP(t, p2, v); break;
    case 3: GGC_WP(t, p3, v); break;
    case 4: GGC_WP(t, p4, v); break;
    case 5: GGC_WP(t, p5, v); break;
    case 6: GGC_WP(t, p6, v); break;
    case 7: GGC_WP(t, p7, v); break;
    case 8: GGC_WP(t, p8, v); break;
    case 9: GGC_WP(t, p9, v); break;
    case 10: GGC_WP(t, p10, v); break;
    case 11: GGC_WP(t, p11, v); break;
    case 12: GGC_WP(t, p12, v); break;
    case 13: GGC_WP(t, p13, v); break;
    case 14: GGC_WP(t, p14, v); break;
    case 15: GGC_WP(t, p15, v); break;
    case 16: GGC_WP(t, p16, v); break;
    case 17: GGC_WP(t, p17, v); break;
    case 18: GGC_WP(t, p18, v); break;
    case 19: GGC_WP(t, p19, v); break;
    case 20: GGC_WP(t, p20, v); break;
    case 21: GGC_WP(t, p21, v); break;
    case 22: GGC_WP(t, p22, v); break;
    case 23: GGC_WP(t, p23, v); break;
    case 24: GGC_WP(t, p24, v); break;
    case 25: GGC_WP(t, p25, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T54(void *o, int k) { T54 t = (T54) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    case 1: return GGC_RP(t, p1);
    case 2: return GGC_RP(t, p2);
    case 3: return GGC_RP(t, p3);
    case 4: return GGC_RP(t, p4);
    case 5: return GGC_RP(t, p5);
    case 6: return GGC_RP(t, p6);
    case 7: return GGC_RP(t, p7);
    case 8: return GGC_RP(t, p8);
    case 9: return GGC_RP(t, p9);
    case 10: return GGC_RP(t, p10);
    case 11: return GGC_RP(t, p11);
    case 12: return GGC_RP(t, p12);
    case 13: return GGC_RP(t, p13);
    case 14: return GGC_RP(t, p14);
    case 15: return GGC_RP(t, p15);
    case 16: return GGC_RP(t, p16);
    case 17: return GGC_RP(t, p17);
    case 18: return GGC_RP(t, p18);
    case 19: return GGC_RP(t, p19);
    case 20: return GGC_RP(t, p20);
    case 21: return GGC_RP(t, p21);
    case 22: return GGC_RP(t, p22);
    case 23: return GGC_RP(t, p23);
    case 24: return GGC_RP(t, p24);
    case 25: return GGC_RP(t, p25);
    default: return NULL; } }
static void setd_T54(void *o, uint64_t s) { T54 t = (T54) o; { size_t v = s; GGC_WD(t, id, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { long v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { double v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { double v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { long v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { double v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { Big3 v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { size_t v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { int v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { int v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { double v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { unsigned v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { unsigned v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { long v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { short v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { short v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { short v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { short v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { size_t v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { short v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { short v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { short v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { short v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { unsigned v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { unsigned v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { long v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { size_t v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { double v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { unsigned v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { unsigned v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { Big3 v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { short v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
    { short v; bits(&v, sizeof(v), s, 37); GGC_WD(t, d37, v); }
    { short v; bits(&v, sizeof(v), s, 38); GGC_WD(t, d38, v); }
    { short v; bits(&v, sizeof(v), s, 39); GGC_WD(t, d39, v); }
    { Big3 v; bits(&v, sizeof(v), s, 40); GGC_WD(t, d40, v); }
    { double v; bits(&v, sizeof(v), s, 41); GGC_WD(t, d41, v); }
}
static int chkd_T54(void *o, uint64_t s) { T54 t = (T54) o; if (GGC_RD(t, id) != s) return -1;
    { GGC_voidp v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { GGC_voidp v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { GGC_voidp v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { long v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { double v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { double v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { long v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { double v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { Big3 v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { GGC_voidp v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { size_t v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { GGC_voidp v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { GGC_voidp v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { int v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { int v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { double v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { unsigned v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { unsigned v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { long v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { short v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { short v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { short v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { short v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { size_t v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { short v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { short v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { short v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { short v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { unsigned v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { unsigned v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { long v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { size_t v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { double v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { unsigned v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { unsigned v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { Big3 v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { short v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    { short v = GGC_RD(t, d37); if (!same(&v, sizeof(v), s, 37)) return 38; }
    { short v = GGC_RD(t, d38); if (!same(&v, sizeof(v), s, 38)) return 39; }
    { short v = GGC_RD(t, d39); if (!same(&v, sizeof(v), s, 39)) return 40; }
    { Big3 v = GGC_RD(t, d40); if (!same(&v, sizeof(v), s, 40)) return 41; }
    { double v = GGC_RD(t, d41); if (!same(&v, sizeof(v), s, 41)) return 42; }
    return 0; }
static int zero_T54(void *o) { T54 t = (T54) o; if (GGC_RP(t, p0)) return 1; if (GGC_RP(t, p1)) return 1; if (GGC_RP(t, p2)) return 1; if (GGC_RP(t, p3)) return 1; if (GGC_RP(t, p4)) return 1; if (GGC_RP(t, p5)) return 1; if (GGC_RP(t, p6)) return 1; if (GGC_RP(t, p7)) return 1; if (GGC_RP(t, p8)) return 1; if (GGC_RP(t, p9)) return 1; if (GGC_RP(t, p10)) return 1; if (GGC_RP(t, p11)) return 1; if (GGC_RP(t, p12)) return 1; if (GGC_RP(t, p13)) return 1; if (GGC_RP(t, p14)) return 1; if (GGC_RP(t, p15)) return 1; if (GGC_RP(t, p16)) return 1; if (GGC_RP(t, p17)) return 1; if (GGC_RP(t, p18)) return 1; if (GGC_RP(t, p19)) return 1; if (GGC_RP(t, p20)) return 1; if (GGC_RP(t, p21)) return 1; if (GGC_RP(t, p22)) return 1; if (GGC_RP(t, p23)) return 1; if (GGC_RP(t, p24)) return 1; if (GGC_RP(t, p25)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T54[] = { offsetof(struct T54__ggggc_struct, p0__ptr) / sizeof(size_t), offsetof(struct T54__ggggc_struct, p1__ptr) / sizeof(size_t), offsetof(struct T54__ggggc_struct, p2__ptr) / sizeof(size_t), offsetof(struct T54__ggggc_struct, p3__ptr) / sizeof(size_t), offsetof(struct T54__ggggc_struct, p4__ptr) / sizeof(size_t), offsetof(struct T54__ggggc_struct, p5__ptr) / sizeof(size_t), offsetof(struct T54__ggggc_struct, p6__ptr) / sizeof(size_t), offsetof(struct T54__ggggc_struct, p7__ptr) / sizeof(size_t), offsetof(struct T54__ggggc_struct, p8__ptr) / sizeof(size_t), offsetof(struct T54__ggggc_struct, p9__ptr) / sizeof(size_t), offsetof(struct T54__ggggc_struct, p10__ptr) / sizeof(size_t), offsetof(struct T54__ggggc_struct, p11__ptr) / sizeof(size_t), offsetof(struct T54__ggggc_struct, p12__ptr) / sizeof(size_t), offsetof(struct T54__ggggc_struct, p13__ptr) / sizeof(size_t), offsetof(struct T54__ggggc_struct, p14__ptr) / sizeof(size_t), offsetof(struct T54__ggggc_struct, p15__ptr) / sizeof(size_t), offsetof(struct T54__ggggc_struct, p16__ptr) / sizeof(size_t), offsetof(struct T54__ggggc_struct, p17__ptr) / sizeof(size_t), offsetof(struct T54__ggggc_struct, p18__ptr) / sizeof(size_t), offsetof(struct T54__ggggc_struct, p19__ptr) / sizeof(size_t), offsetof(struct T54__ggggc_struct, p20__ptr) / sizeof(size_t), offsetof(struct T54__ggggc_struct, p21__ptr) / sizeof(size_t), offsetof(struct T54__ggggc_struct, p22__ptr) / sizeof(size_t), offsetof(struct T54__ggggc_struct, p23__ptr) / sizeof(size_t), offsetof(struct T54__ggggc_struct, p24__ptr) / sizeof(size_t), offsetof(struct T54__ggggc_struct, p25__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T55)
    GGC_MDATA(size_t, id);
    GGC_MDATA(float, d0);
    GGC_MDATA(float, d1);
    GGC_MDATA(float, d2);
    GGC_MDATA(float, d3);
    GGC_MDATA(long, d4);
    GGC_MDATA(size_t, d5);
    GGC_MPTR(Leaf, p0);
    GGC_MPTR(Leaf, p1);
    GGC_MDATA(size_t, d6);
    GGC_MPTR(Leaf, p2);
    GGC_MPTR(Leaf, p3);
    GGC_MPTR(Leaf, p4);
    GGC_MDATA(long, d7);
    GGC_MDATA(float, d8);
    GGC_MDATA(float, d9);
    GGC_MPTR(Leaf, p5);
    GGC_MDATA(Tri, d10);
    GGC_MDATA(Tri, d11);
    GGC_MDATA(short, d12);
    GGC_MPTR(Leaf, p6);
    GGC_MDATA(long, d13);
    GGC_MPTR(Leaf, p7);
    GGC_MDATA(int, d14);
    GGC_MDATA(int, d15);
    GGC_MDATA(float, d16);
    GGC_MDATA(float, d17);
    GGC_MPTR(Leaf, p8);
    GGC_MDATA(size_t, d18);
    GGC_MPTR(Leaf, p9);
    GGC_MPTR(Leaf, p10);
    GGC_MPTR(Leaf, p11);
    GGC_MDATA(float, d19);
    GGC_MDATA(float, d20);
    GGC_MPTR(Leaf, p12);
    GGC_MPTR(Leaf, p13);
    GGC_MPTR(Leaf, p14);
    GGC_MPTR(Leaf, p15);
    GGC_MDATA(char, d21);
    GGC_MDATA(char, d22);
    GGC_MDATA(char, d23);
    GGC_MDATA(char, d24);
    GGC_MDATA(char, d25);
    GGC_MDATA(char, d26);
    GGC_MDATA(char, d27);
    GGC_MDATA(char, d28);
    GGC_MPTR(Leaf, p16);
    GGC_MDATA(size_t, d29);
    GGC_MDATA(double, d30);
    GGC_MDATA(size_t, d31);
    GGC_MDATA(float, d32);
    GGC_MDATA(float, d33);
    GGC_MPTR(Leaf, p17);
    GGC_MDATA(unsigned, d34);
    GGC_MDATA(unsigned, d35);
    GGC_MPTR(Leaf, p18);
    GGC_MPTR(Leaf, p19);
    GGC_MDATA(double, d36);
    GGC_MPTR(Leaf, p20);
    GGC_MDATA(long, d37);
    GGC_MPTR(Leaf, p21);
    GGC_MDATA(size_t, d38);
    GGC_MDATA(long, d39);
    GGC_MDATA(GGC_voidp, d40);
    GGC_MPTR(Leaf, p22);
    GGC_MPTR(Leaf, p23);
    GGC_MDATA(char, d41);
    GGC_MDATA(char, d42);
    GGC_MDATA(char, d43);
    GGC_MDATA(char, d44);
    GGC_MDATA(char, d45);
    GGC_MDATA(char, d46);
    GGC_MDATA(char, d47);
    GGC_MDATA(char, d48);
    GGC_MDATA(int, d49);
    GGC_MDATA(int, d50);
    GGC_MPTR(Leaf, p24);
    GGC_MDATA(char, d51);
    GGC_MDATA(char, d52);
    GGC_MDATA(char, d53);
    GGC_MDATA(char, d54);
    GGC_MDATA(char, d55);
    GGC_MDATA(char, d56);
    GGC_MDATA(char, d57);
    GGC_MDATA(char, d58);
    GGC_MDATA(unsigned, d59);
    GGC_MDATA(unsigned, d60);
    GGC_MPTR(Leaf, p25);
    GGC_MDATA(GGC_voidp, d61);
    GGC_MPTR(Leaf, p26);
    GGC_MPTR(Leaf, p27);
    GGC_MPTR(Leaf, p28);
    GGC_MPTR(Leaf, p29);
    GGC_MDATA(long, d62);
    GGC_MDATA(long, d63);
    GGC_MDATA(double, d64);
GGC_END_TYPE(T55,
    GGC_PTR(T55, p0)
    GGC_PTR(T55, p1)
    GGC_PTR(T55, p2)
    GGC_PTR(T55, p3)
    GGC_PTR(T55, p4)
    GGC_PTR(T55, p5)
    GGC_PTR(T55, p6)
    GGC_PTR(T55, p7)
    GGC_PTR(T55, p8)
    GGC_PTR(T55, p9)
    GGC_PTR(T55, p10)
    GGC_PTR(T55, p11)
    GGC_PTR(T55, p12)
    GGC_PTR(T55, p13)
    GGC_PTR(T55, p14)
    GGC_PTR(T55, p15)
    GGC_PTR(T55, p16)
    GGC_PTR(T55, p17)
    GGC_PTR(T55, p18)
    GGC_PTR(T55, p19)
    GGC_PTR(T55, p20)
    GGC_PTR(T55, p21)
    GGC_PTR(T55, p22)
    GGC_PTR(T55, p23)
    GGC_PTR(T55, p24)
    GGC_PTR(T55, p25)
    GGC_PTR(T55, p26)
    GGC_PTR(T55, p27)
    GGC_PTR(T55, p28)
    GGC_PTR(T55, p29)
    )
static void *new_T55(void) { return GGC_NEW(T55); }
static void setp_T55(void *o, int k, Leaf v) { T55 t = (T55) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    case 1: GGC_WP(t, p1, v); break;
    case 2: GGC_WP(t, p2, v); break;
    case 3: GGC_WP(t, p3, v); break;
    case 4: GGC_WP(t, p4, v); break;
    case 5: GGC_WP(t, p5, v); break;
    case 6: GGC_WP(t, p6, v); break;
    case 7: GGC_WP(t, p7, v); break;
    case 8: GGC_WP(t, p8, v); break;
    case 9: GGC_WP(t, p9, v); break;
    case 10: GGC_WP(t, p10, v); break;
    case 11: GGC_WP(t, p11, v); break;
    case 12: GGC_WP(t, p12, v); break;
    case 13: GGC_WP(t, p13, v); break;
    case 14: GGC_WP(t, p14, v); break;
    case 15: GGC_WP(t, p15, v); break;
    case 16: GGC_WP(t, p16, v); break;
    case 17: GGC_WP(t, p17, v); break;
    case 18: GGC_WP(t, p18, v); break;
    case 19: GGC_WP(t, p19, v); break;
    case 20: GGC_WP(t, p20, v); break;
    case 21: GGC_WP(t, p21, v); break;
    case 22: GGC_WP(t, p22, v); break;
    case 23: GGC_WP(t, p23, v); break;
    case 24: GGC_WP(t, p24, v); break;
    case 25: GGC_WP(t, p25, v); break;
    case 26: GGC_WP(t, p26, v); break;
    case 27: GGC_WP(t, p27, v); break;
    case 28: GGC_WP(t, p28, v); break;
    case 29: GGC_WP(t, p29, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T55(void *o, int k) { T55 t = (T55) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    case 1: return GGC_RP(t, p1);
    case 2: return GGC_RP(t, p2);
    case 3: return GGC_RP(t, p3);
    case 4: return GGC_RP(t, p4);
    case 5: return GGC_RP(t, p5);
    case 6: return GGC_RP(t, p6);
    case 7: return GGC_RP(t, p7);
    case 8: return GGC_RP(t, p8);
    case 9: return GGC_RP(t, p9);
    case 10: return GGC_RP(t, p10);
    case 11: return GGC_RP(t, p11);
    case 12: return GGC_RP(t, p12);
    case 13: return GGC_RP(t, p13);
    case 14: return GGC_RP(t, p14);
    case 15: return GGC_RP(t, p15);
    case 16: return GGC_RP(t, p16);
    case 17: return GGC_RP(t, p17);
    case 18: return GGC_RP(t, p18);
    case 19: return GGC_RP(t, p19);
    case 20: return GGC_RP(t, p20);
    case 21: return GGC_RP(t, p21);
    case 22: return GGC_RP(t, p22);
    case 23: return GGC_RP(t, p23);
    case 24: return GGC_RP(t, p24);
    case 25: return GGC_RP(t, p25);
    case 26: return GGC_RP(t, p26);
    case 27: return GGC_RP(t, p27);
    case 28: return GGC_RP(t, p28);
    case 29: return GGC_RP(t, p29);
    default: return NULL; } }
static void setd_T55(void *o, uint64_t s) { T55 t = (T55) o; { size_t v = s; GGC_WD(t, id, v); }
    { float v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { float v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { float v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { float v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { long v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { size_t v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { size_t v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { long v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { float v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { float v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { Tri v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { Tri v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { short v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { long v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { int v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { int v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { float v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { float v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { size_t v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { float v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { float v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { char v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { char v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { char v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { char v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { char v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { char v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { char v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { char v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { size_t v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { double v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { size_t v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { float v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { float v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { unsigned v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { unsigned v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { double v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
    { long v; bits(&v, sizeof(v), s, 37); GGC_WD(t, d37, v); }
    { size_t v; bits(&v, sizeof(v), s, 38); GGC_WD(t, d38, v); }
    { long v; bits(&v, sizeof(v), s, 39); GGC_WD(t, d39, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 40); GGC_WD(t, d40, v); }
    { char v; bits(&v, sizeof(v), s, 41); GGC_WD(t, d41, v); }
    { char v; bits(&v, sizeof(v), s, 42); GGC_WD(t, d42, v); }
    { char v; bits(&v, sizeof(v), s, 43); GGC_WD(t, d43, v); }
    { char v; bits(&v, sizeof(v), s, 44); GGC_WD(t, d44, v); }
    { char v; bits(&v, sizeof(v), s, 45); GGC_WD(t, d45, v); }
    { char v; bits(&v, sizeof(v), s, 46); GGC_WD(t, d46, v); }
    { char v; bits(&v, sizeof(v), s, 47); GGC_WD(t, d47, v); }
    { char v; bits(&v, sizeof(v), s, 48); GGC_WD(t, d48, v); }
    { int v; bits(&v, sizeof(v), s, 49); GGC_WD(t, d49, v); }
    { int v; bits(&v, sizeof(v), s, 50); GGC_WD(t, d50, v); }
    { char v; bits(&v, sizeof(v), s, 51); GGC_WD(t, d51, v); }
    { char v; bits(&v, sizeof(v), s, 52); GGC_WD(t, d52, v); }
    { char v; bits(&v, sizeof(v), s, 53); GGC_WD(t, d53, v); }
    { char v; bits(&v, sizeof(v), s, 54); GGC_WD(t, d54, v); }
    { char v; bits(&v, sizeof(v), s, 55); GGC_WD(t, d55, v); }
    { char v; bits(&v, sizeof(v), s, 56); GGC_WD(t, d56, v); }
    { char v; bits(&v, sizeof(v), s, 57); GGC_WD(t, d57, v); }
    { char v; bits(&v, sizeof(v), s, 58); GGC_WD(t, d58, v); }
    { unsigned v; bits(&v, sizeof(v), s, 59); GGC_WD(t, d59, v); }
    { unsigned v; bits(&v, sizeof(v), s, 60); GGC_WD(t, d60, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 61); GGC_WD(t, d61, v); }
    { long v; bits(&v, sizeof(v), s, 62); GGC_WD(t, d62, v); }
    { long v; bits(&v, sizeof(v), s, 63); GGC_WD(t, d63, v); }
    { double v; bits(&v, sizeof(v), s, 64); GGC_WD(t, d64, v); }
}
static int chkd_T55(void *o, uint64_t s) { T55 t = (T55) o; if (GGC_RD(t, id) != s) return -1;
    { float v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { float v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { float v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { float v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { long v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { size_t v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { size_t v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { long v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { float v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { float v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { Tri v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { Tri v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { short v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { long v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { int v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { int v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { float v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { float v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { size_t v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { float v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { float v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { char v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { char v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { char v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { char v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { char v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { char v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { char v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { char v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { size_t v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { double v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { size_t v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { float v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { float v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { unsigned v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { unsigned v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { double v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    { long v = GGC_RD(t, d37); if (!same(&v, sizeof(v), s, 37)) return 38; }
    { size_t v = GGC_RD(t, d38); if (!same(&v, sizeof(v), s, 38)) return 39; }
    { long v = GGC_RD(t, d39); if (!same(&v, sizeof(v), s, 39)) return 40; }
    { GGC_voidp v = GGC_RD(t, d40); if (!same(&v, sizeof(v), s, 40)) return 41; }
    { char v = GGC_RD(t, d41); if (!same(&v, sizeof(v), s, 41)) return 42; }
    { char v = GGC_RD(t, d42); if (!same(&v, sizeof(v), s, 42)) return 43; }
    { char v = GGC_RD(t, d43); if (!same(&v, sizeof(v), s, 43)) return 44; }
    { char v = GGC_RD(t, d44); if (!same(&v, sizeof(v), s, 44)) return 45; }
    { char v = GGC_RD(t, d45); if (!same(&v, sizeof(v), s, 45)) return 46; }
    { char v = GGC_RD(t, d46); if (!same(&v, sizeof(v), s, 46)) return 47; }
    { char v = GGC_RD(t, d47); if (!same(&v, sizeof(v), s, 47)) return 48; }
    { char v = GGC_RD(t, d48); if (!same(&v, sizeof(v), s, 48)) return 49; }
    { int v = GGC_RD(t, d49); if (!same(&v, sizeof(v), s, 49)) return 50; }
    { int v = GGC_RD(t, d50); if (!same(&v, sizeof(v), s, 50)) return 51; }
    { char v = GGC_RD(t, d51); if (!same(&v, sizeof(v), s, 51)) return 52; }
    { char v = GGC_RD(t, d52); if (!same(&v, sizeof(v), s, 52)) return 53; }
    { char v = GGC_RD(t, d53); if (!same(&v, sizeof(v), s, 53)) return 54; }
    { char v = GGC_RD(t, d54); if (!same(&v, sizeof(v), s, 54)) return 55; }
    { char v = GGC_RD(t, d55); if (!same(&v, sizeof(v), s, 55)) return 56; }
    { char v = GGC_RD(t, d56); if (!same(&v, sizeof(v), s, 56)) return 57; }
    { char v = GGC_RD(t, d57); if (!same(&v, sizeof(v), s, 57)) return 58; }
    { char v = GGC_RD(t, d58); if (!same(&v, sizeof(v), s, 58)) return 59; }
    { unsigned v = GGC_RD(t, d59); if (!same(&v, sizeof(v), s, 59)) return 60; }
    { unsigned v = GGC_RD(t, d60); if (!same(&v, sizeof(v), s, 60)) return 61; }
    { GGC_voidp v = GGC_RD(t, d61); if (!same(&v, sizeof(v), s, 61)) return 62; }
    { long v = GGC_RD(t, d62); if (!same(&v, sizeof(v), s, 62)) return 63; }
    { long v = GGC_RD(t, d63); if (!same(&v, sizeof(v), s, 63)) return 64; }
    { double v = GGC_RD(t, d64); if (!same(&v, sizeof(v), s, 64)) return 65; }
    return 0; }
static int zero_T55(void *o) { T55 t = (T55) o; if (GGC_RP(t, p0)) return 1; if (GGC_RP(t, p1)) return 1; if (GGC_RP(t, p2)) return 1; if (GGC_RP(t, p3)) return 1; if (GGC_RP(t, p4)) return 1; if (GGC_RP(t, p5)) return 1; if (GGC_RP(t, p6)) return 1; if (GGC_RP(t, p7)) return 1; if (GGC_RP(t, p8)) return 1; if (GGC_RP(t, p9)) return 1; if (GGC_RP(t, p10)) return 1; if (GGC_RP(t, p11)) return 1; if (GGC_RP(t, p12)) return 1; if (GGC_RP(t, p13)) return 1; if (GGC_RP(t, p14)) return 1; if (GGC_RP(t, p15)) return 1; if (GGC_RP(t, p16)) return 1; if (GGC_RP(t, p17)) return 1; if (GGC_RP(t, p18)) return 1; if (GGC_RP(t, p19)) return 1; if (GGC_RP(t, p20)) return 1; if (GGC_RP(t, p21)) return 1; if (GGC_RP(t, p22)) return 1; if (GGC_RP(t, p23)) return 1; if (GGC_RP(t, p24)) return 1; if (GGC_RP(t, p25)) return 1; if (GGC_RP(t, p26)) return 1; if (GGC_RP(t, p27)) return 1; if (GGC_RP(t, p28)) return 1; if (GGC_RP(t, p29)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T55[] = { offsetof(struct T55__ggggc_struct, p0__ptr) / sizeof(size_t), offsetof(struct T55__ggggc_struct, p1__ptr) / sizeof(size_t), offsetof(struct T55__ggggc_struct, p2__ptr) / sizeof(size_t), offsetof(struct T55__ggggc_struct, p3__ptr) / sizeof(size_t), offsetof(struct T55__ggggc_struct, p4__ptr) / sizeof(size_t), offsetof(struct T55__ggggc_struct, p5__ptr) / sizeof(size_t), offsetof(struct T55__ggggc_struct, p6__ptr) / sizeof(size_t), offsetof(struct T55__ggggc_struct, p7__ptr) / sizeof(size_t), offsetof(struct T55__ggggc_struct, p8__ptr) / sizeof(size_t), offsetof(struct T55__ggggc_struct, p9__ptr) / sizeof(size_t), offsetof(struct T55__ggggc_struct, p10__ptr) / sizeof(size_t), offsetof(struct T55__ggggc_struct, p11__ptr) / sizeof(size_t), offsetof(struct T55__ggggc_struct, p12__ptr) / sizeof(size_t), offsetof(struct T55__ggggc_struct, p13__ptr) / sizeof(size_t), offsetof(struct T55__ggggc_struct, p14__ptr) / sizeof(size_t), offsetof(struct T55__ggggc_struct, p15__ptr) / sizeof(size_t), offsetof(struct T55__ggggc_struct, p16__ptr) / sizeof(size_t), offsetof(struct T55__ggggc_struct, p17__ptr) / sizeof(size_t), offsetof(struct T55__ggggc_struct, p18__ptr) / sizeof(size_t), offsetof(struct T55__ggggc_struct, p19__ptr) / sizeof(size_t), offsetof(struct T55__ggggc_struct, p20__ptr) / sizeof(size_t), offsetof(struct T55__ggggc_struct, p21__ptr) / sizeof(size_t), offsetof(struct T55__ggggc_struct, p22__ptr) / sizeof(size_t), offsetof(struct T55__ggggc_struct, p23__ptr) / sizeof(size_t), offsetof(struct T55__ggggc_struct, p24__ptr) / sizeof(size_t), offsetof(struct T55__ggggc_struct, p25__ptr) / sizeof(size_t), offsetof(struct T55__ggggc_struct, p26__ptr) / sizeof(size_t), offsetof(struct T55__ggggc_struct, p27__ptr) / sizeof(size_t), offsetof(struct T55__ggggc_struct, p28__ptr) / sizeof(size_t), offsetof(struct T55__ggggc_struct, p29__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T56)
    GGC_MDATA(size_t, id);
    GGC_MPTR(Leaf, p0);
    GGC_MPTR(Leaf, p1);
    GGC_MPTR(Leaf, p2);
    GGC_MDATA(char, d0);
    GGC_MDATA(char, d1);
    GGC_MDATA(char, d2);
    GGC_MDATA(char, d3);
    GGC_MDATA(char, d4);
    GGC_MDATA(char, d5);
    GGC_MDATA(char, d6);
    GGC_MDATA(char, d7);
    GGC_MDATA(Tri, d8);
    GGC_MDATA(Tri, d9);
    GGC_MDATA(short, d10);
    GGC_MPTR(Leaf, p3);
    GGC_MPTR(Leaf, p4);
    GGC_MDATA(long, d11);
    GGC_MDATA(double, d12);
    GGC_MPTR(Leaf, p5);
    GGC_MDATA(long, d13);
    GGC_MDATA(double, d14);
    GGC_MPTR(Leaf, p6);
    GGC_MDATA(double, d15);
    GGC_MPTR(Leaf, p7);
    GGC_MDATA(unsigned, d16);
    GGC_MDATA(unsigned, d17);
    GGC_MDATA(double, d18);
    GGC_MPTR(Leaf, p8);
    GGC_MDATA(double, d19);
    GGC_MDATA(GGC_voidp, d20);
    GGC_MDATA(double, d21);
    GGC_MPTR(Leaf, p9);
    GGC_MPTR(Leaf, p10);
    GGC_MDATA(long, d22);
    GGC_MDATA(char, d23);
    GGC_MDATA(char, d24);
    GGC_MDATA(char, d25);
    GGC_MDATA(char, d26);
    GGC_MDATA(char, d27);
    GGC_MDATA(char, d28);
    GGC_MDATA(char, d29);
    GGC_MDATA(char, d30);
    GGC_MDATA(double, d31);
    GGC_MPTR(Leaf, p11);
    GGC_MPTR(Leaf, p12);
    GGC_MPTR(Leaf, p13);
    GGC_MDATA(int, d32);
    GGC_MDATA(int, d33);
    GGC_MPTR(Leaf, p14);
    GGC_MDATA(char, d34);
    GGC_MDATA(char, d35);
    GGC_MDATA(char, d36);
    GGC_MDATA(char, d37);
    GGC_MDATA(char, d38);
    GGC_MDATA(char, d39);
    GGC_MDATA(char, d40);
    GGC_MDATA(char, d41);
    GGC_MDATA(long, d42);
    GGC_MPTR(Leaf, p15);
    GGC_MPTR(Leaf, p16);
    GGC_MDATA(unsigned, d43);
    GGC_MDATA(unsigned, d44);
    GGC_MDATA(char, d45);
    GGC_MDATA(char, d46);
    GGC_MDATA(char, d47);
    GGC_MDATA(char, d48);
    GGC_MDATA(char, d49);
    GGC_MDATA(char, d50);
    GGC_MDATA(char, d51);
    GGC_MDATA(char, d52);
    GGC_MDATA(float, d53);
    GGC_MDATA(float, d54);
    GGC_MDATA(double, d55);
    GGC_MDATA(long, d56);
    GGC_MDATA(double, d57);
    GGC_MDATA(GGC_voidp, d58);
    GGC_MPTR(Leaf, p17);
    GGC_MDATA(size_t, d59);
    GGC_MPTR(Leaf, p18);
    GGC_MDATA(char, d60);
    GGC_MDATA(char, d61);
    GGC_MDATA(char, d62);
    GGC_MDATA(char, d63);
    GGC_MDATA(char, d64);
    GGC_MDATA(char, d65);
    GGC_MDATA(char, d66);
    GGC_MDATA(char, d67);
    GGC_MDATA(Tri, d68);
    GGC_MDATA(Tri, d69);
    GGC_MDATA(short, d70);
    GGC_MDATA(GGC_voidp, d71);
    GGC_MDATA(GGC_voidp, d72);
    GGC_MDATA(size_t, d73);
    GGC_MDATA(long, d74);
    GGC_MPTR(Leaf, p19);
    GGC_MDATA(Tri, d75);
    GGC_MDATA(Tri, d76);
    GGC_MDATA(short, d77);
    GGC_MPTR(Leaf, p20);
    GGC_MPTR(Leaf, p21);
    GGC_MDATA(GGC_voidp, d78);
    GGC_MPTR(Leaf, p22);
    GGC_MPTR(Leaf, p23);
    GGC_MDATA(long, d79);
    GGC_MPTR(Leaf, p24);
    GGC_MPTR(Leaf, p25);
    GGC_MDATA(char, d80);
    GGC_MDATA(char, d81);
    GGC_MDATA(char, d82);
    GGC_MDATA(char, d83);
    GGC_MDATA(char, d84);
    GGC_MDATA(char, d85);
    GGC_MDATA(char, d86);
    GGC_MDATA(char, d87);
    GGC_MDATA(size_t, d88);
    GGC_MDATA(Tri, d89);
    GGC_MDATA(Tri, d90);
    GGC_MDATA(short, d91);
GGC_END_TYPE(T56,
    GGC_PTR(T56, p0)
    GGC_PTR(T56, p1)
    GGC_PTR(T56, p2)
    GGC_PTR(T56, p3)
    GGC_PTR(T56, p4)
    GGC_PTR(T56, p5)
    GGC_PTR(T56, p6)
    GGC_PTR(T56, p7)
    GGC_PTR(T56, p8)
    GGC_PTR(T56, p9)
    GGC_PTR(T56, p10)
    GGC_PTR(T56, p11)
    GGC_PTR(T56, p12)
    GGC_PTR(T56, p13)
    GGC_PTR(T56, p14)
    GGC_PTR(T56, p15)
    GGC_PTR(T56, p16)
    GGC_PTR(T56, p17)
    GGC_PTR(T56, p18)
    GGC_PTR(T56, p19)
    GGC_PTR(T56, p20)
    GGC_PTR(T56, p21)
    GGC_PTR(T56, p22)
    GGC_PTR(T56, p23)
    GGC_PTR(T56, p24)
    GGC_PTR(T56, p25)
    )
static void *new_T56(void) { return GGC_NEW(T56); }
static void setp_T56(void *o, int k, Leaf v) { T56 t = (T56) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    case 1: GGC_WP(t, p1, v); break;
    case 2: GGC_WP(t, p2, v); break;
    case 3: GGC_WP(t, p3, v); break;
    case 4: GGC_WP(t, p4, v); break;
    case 5: GGC_WP(t, p5, v); break;
    case 6: GGC_WP(t, p6, v); break;
    case 7: GGC_WP(t, p7, v); break;
    case 8: GGC_WP(t, p8, v); break;
    case 9: GGC_WP(t, p9, v); break;
    case 10: GGC_WP(t, p10, v); break;
    case 11: GGC_WP(t, p11, v); break;
    case 12: GGC_WP(t, p12, v); break;
    case 13: GGC_WP(t, p13, v); break;
    case 14: GGC_WP(t, p14, v); break;
    case 15: GGC_WP(t, p15, v); break;
    case 16: GGC_WP(t, p16, v); break;
    case 17: GGC_WP(t, p17, v); break;
    case 18: GGC_WP(t, p18, v); break;
    case 19: GGC_WP(t, p19, v); break;
    case 20: GGC_WP(t, p20, v); break;
    case 21: GGC_WP(t, p21, v); break;
    case 22: GGC_WP(t, p22, v); break;
    case 23: GGC_WP(t, p23, v); break;
    case 24: GGC_WP(t, p24, v); break;
    case 25: GGC_WP(t, p25, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T56(void *o, int k) { T56 t = (T56) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    case 1: return GGC_RP(t, p1);
    case 2: return GGC_RP(t, p2);
    case 3: return GGC_RP(t, p3);
    case 4: return GGC_RP(t, p4);
    case 5: return GGC_RP(t, p5);
    case 6: return GGC_RP(t, p6);
    case 7: return GGC_RP(t, p7);
    case 8: return GGC_RP(t, p8);
    case 9: return GGC_RP(t, p9);
    case 10: return GGC_RP(t, p10);
    case 11: return GGC_RP(t, p11);
    case 12: return GGC_RP(t, p12);
    case 13: return GGC_RP(t, p13);
    case 14: return GGC_RP(t, p14);
    case 15: return GGC_RP(t, p15);
    case 16: return GGC_RP(t, p16);
    case 17: return GGC_RP(t, p17);
    case 18: return GGC_RP(t, p18);
    case 19: return GGC_RP(t, p19);
    case 20: return GGC_RP(t, p20);
    case 21: return GGC_RP(t, p21);
    case 22: return GGC_RP(t, p22);
    case 23: return GGC_RP(t, p23);
    case 24: return GGC_RP(t, p24);
    case 25: return GGC_RP(t, p25);
    default: return NULL; } }
static void setd_T56(void *o, uint64_t s) { T56 t = (T56) o; { size_t v = s; GGC_WD(t, id, v); }
    { char v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { char v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { char v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { char v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { char v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { char v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { char v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { char v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { Tri v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { Tri v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { short v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { long v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { double v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { long v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { double v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { double v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { unsigned v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { unsigned v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { double v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { double v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { double v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { long v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { char v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { char v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { char v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { char v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { char v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { char v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { char v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { char v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { double v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { int v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { int v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { char v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { char v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { char v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
    { char v; bits(&v, sizeof(v), s, 37); GGC_WD(t, d37, v); }
    { char v; bits(&v, sizeof(v), s, 38); GGC_WD(t, d38, v); }
    { char v; bits(&v, sizeof(v), s, 39); GGC_WD(t, d39, v); }
    { char v; bits(&v, sizeof(v), s, 40); GGC_WD(t, d40, v); }
    { char v; bits(&v, sizeof(v), s, 41); GGC_WD(t, d41, v); }
    { long v; bits(&v, sizeof(v), s, 42); GGC_WD(t, d42, v); }
    { unsigned v; bits(&v, sizeof(v), s, 43); GGC_WD(t, d43, v); }
    { unsigned v; bits(&v, sizeof(v), s, 44); GGC_WD(t, d44, v); }
    { char v; bits(&v, sizeof(v), s, 45); GGC_WD(t, d45, v); }
    { char v; bits(&v, sizeof(v), s, 46); GGC_WD(t, d46, v); }
    { char v; bits(&v, sizeof(v), s, 47); GGC_WD(t, d47, v); }
    { char v; bits(&v, sizeof(v), s, 48); GGC_WD(t, d48, v); }
    { char v; bits(&v, sizeof(v), s, 49); GGC_WD(t, d49, v); }
    { char v; bits(&v, sizeof(v), s, 50); GGC_WD(t, d50, v); }
    { char v; bits(&v, sizeof(v), s, 51); GGC_WD(t, d51, v); }
    { char v; bits(&v, sizeof(v), s, 52); GGC_WD(t, d52, v); }
    { float v; bits(&v, sizeof(v), s, 53); GGC_WD(t, d53, v); }
    { float v; bits(&v, sizeof(v), s, 54); GGC_WD(t, d54, v); }
    { double v; bits(&v, sizeof(v), s, 55); GGC_WD(t, d55, v); }
    { long v; bits(&v, sizeof(v), s, 56); GGC_WD(t, d56, v); }
    { double v; bits(&v, sizeof(v), s, 57); GGC_WD(t, d57, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 58); GGC_WD(t, d58, v); }
    { size_t v; bits(&v, sizeof(v), s, 59); GGC_WD(t, d59, v); }
    { char v; bits(&v, sizeof(v), s, 60); GGC_WD(t, d60, v); }
    { char v; bits(&v, sizeof(v), s, 61); GGC_WD(t, d61, v); }
    { char v; bits(&v, sizeof(v), s, 62); GGC_WD(t, d62, v); }
    { char v; bits(&v, sizeof(v), s, 63); GGC_WD(t, d63, v); }
    { char v; bits(&v, sizeof(v), s, 64); GGC_WD(t, d64, v); }
    { char v; bits(&v, sizeof(v), s, 65); GGC_WD(t, d65, v); }
    { char v; bits(&v, sizeof(v), s, 66); GGC_WD(t, d66, v); }
    { char v; bits(&v, sizeof(v), s, 67); GGC_WD(t, d67, v); }
    { Tri v; bits(&v, sizeof(v), s, 68); GGC_WD(t, d68, v); }
    { Tri v; bits(&v, sizeof(v), s, 69); GGC_WD(t, d69, v); }
    { short v; bits(&v, sizeof(v), s, 70); GGC_WD(t, d70, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 71); GGC_WD(t, d71, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 72); GGC_WD(t, d72, v); }
    { size_t v; bits(&v, sizeof(v), s, 73); GGC_WD(t, d73, v); }
    { long v; bits(&v, sizeof(v), s, 74); GGC_WD(t, d74, v); }
    { Tri v; bits(&v, sizeof(v), s, 75); GGC_WD(t, d75, v); }
    { Tri v; bits(&v, sizeof(v), s, 76); GGC_WD(t, d76, v); }
    { short v; bits(&v, sizeof(v), s, 77); GGC_WD(t, d77, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 78); GGC_WD(t, d78, v); }
    { long v; bits(&v, sizeof(v), s, 79); GGC_WD(t, d79, v); }
    { char v; bits(&v, sizeof(v), s, 80); GGC_WD(t, d80, v); }
    { char v; bits(&v, sizeof(v), s, 81); GGC_WD(t, d81, v); }
    { char v; bits(&v, sizeof(v), s, 82); GGC_WD(t, d82, v); }
    { char v; bits(&v, sizeof(v), s, 83); GGC_WD(t, d83, v); }
    { char v; bits(&v, sizeof(v), s, 84); GGC_WD(t, d84, v); }
    { char v; bits(&v, sizeof(v), s, 85); GGC_WD(t, d85, v); }
    { char v; bits(&v, sizeof(v), s, 86); GGC_WD(t, d86, v); }
    { char v; bits(&v, sizeof(v), s, 87); GGC_WD(t, d87, v); }
    { size_t v; bits(&v, sizeof(v), s, 88); GGC_WD(t, d88, v); }
    { Tri v; bits(&v, sizeof(v), s, 89); GGC_WD(t, d89, v); }
    { Tri v; bits(&v, sizeof(v), s, 90); GGC_WD(t, d90, v); }
    { short v; bits(&v, sizeof(v), s, 91); GGC_WD(t, d91, v); }
}
static int chkd_T56(void *o, uint64_t s) { T56 t = (T56) o; if (GGC_RD(t, id) != s) return -1;
    { char v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { char v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { char v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { char v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { char v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { char v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { char v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { char v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { Tri v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { Tri v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { short v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { long v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { double v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { long v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { double v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { double v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { unsigned v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { unsigned v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { double v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { double v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { GGC_voidp v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { double v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { long v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { char v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { char v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { char v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { char v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { char v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { char v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { char v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { char v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { double v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { int v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { int v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { char v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { char v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { char v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    { char v = GGC_RD(t, d37); if (!same(&v, sizeof(v), s, 37)) return 38; }
    { char v = GGC_RD(t, d38); if (!same(&v, sizeof(v), s, 38)) return 39; }
    { char v = GGC_RD(t, d39); if (!same(&v, sizeof(v), s, 39)) return 40; }
    { char v = GGC_RD(t, d40); if (!same(&v, sizeof(v), s, 40)) return 41; }
    { char v = GGC_RD(t, d41); if (!same(&v, sizeof(v), s, 41)) return 42; }
    { long v = GGC_RD(t, d42); if (!same(&v, sizeof(v), s, 42)) return 43; }
    { unsigned v = GGC_RD(t, d43); if (!same(&v, sizeof(v), s, 43)) return 44; }
    { unsigned v = GGC_RD(t, d44); if (!same(&v, sizeof(v), s, 44)) return 45; }
    { char v = GGC_RD(t, d45); if (!same(&v, sizeof(v), s, 45)) return 46; }
    { char v = GGC_RD(t, d46); if (!same(&v, sizeof(v), s, 46)) return 47; }
    { char v = GGC_RD(t, d47); if (!same(&v, sizeof(v), s, 47)) return 48; }
    { char v = GGC_RD(t, d48); if (!same(&v, sizeof(v), s, 48)) return 49; }
    { char v = GGC_RD(t, d49); if (!same(&v, sizeof(v), s, 49)) return 50; }
    { char v = GGC_RD(t, d50); if (!same(&v, sizeof(v), s, 50)) return 51; }
    { char v = GGC_RD(t, d51); if (!same(&v, sizeof(v), s, 51)) return 52; }
    { char v = GGC_RD(t, d52); if (!same(&v, sizeof(v), s, 52)) return 53; }
    { float v = GGC_RD(t, d53); if (!same(&v, sizeof(v), s, 53)) return 54; }
    { float v = GGC_RD(t, d54); if (!same(&v, sizeof(v), s, 54)) return 55; }
    { double v = GGC_RD(t, d55); if (!same(&v, sizeof(v), s, 55)) return 56; }
    { long v = GGC_RD(t, d56); if (!same(&v, sizeof(v), s, 56)) return 57; }
    { double v = GGC_RD(t, d57); if (!same(&v, sizeof(v), s, 57)) return 58; }
    { GGC_voidp v = GGC_RD(t, d58); if (!same(&v, sizeof(v), s, 58)) return 59; }
    { size_t v = GGC_RD(t, d59); if (!same(&v, sizeof(v), s, 59)) return 60; }
    { char v = GGC_RD(t, d60); if (!same(&v, sizeof(v), s, 60)) return 61; }
    { char v = GGC_RD(t, d61); if (!same(&v, sizeof(v), s, 61)) return 62; }
    { char v = GGC_RD(t, d62); if (!same(&v, sizeof(v), s, 62)) return 63; }
    { char v = GGC_RD(t, d63); if (!same(&v, sizeof(v), s, 63)) return 64; }
    { char v = GGC_RD(t, d64); if (!same(&v, sizeof(v), s, 64)) return 65; }
    { char v = GGC_RD(t, d65); if (!same(&v, sizeof(v), s, 65)) return 66; }
    { char v = GGC_RD(t, d66); if (!same(&v, sizeof(v), s, 66)) return 67; }
    { char v = GGC_RD(t, d67); if (!same(&v, sizeof(v), s, 67)) return 68; }
    { Tri v = GGC_RD(t, d68); if (!same(&v, sizeof(v), s, 68)) return 69; }
    { Tri v = GGC_RD(t, d69); if (!same(&v, sizeof(v), s, 69)) return 70; }
    { short v = GGC_RD(t, d70); if (!same(&v, sizeof(v), s, 70)) return 71; }
    { GGC_voidp v = GGC_RD(t, d71); if (!same(&v, sizeof(v), s, 71)) return 72; }
    { GGC_voidp v = GGC_RD(t, d72); if (!same(&v, sizeof(v), s, 72)) return 73; }
    { size_t v = GGC_RD(t, d73); if (!same(&v, sizeof(v), s, 73)) return 74; }
    { long v = GGC_RD(t, d74); if (!same(&v, sizeof(v), s, 74)) return 75; }
    { Tri v = GGC_RD(t, d75); if (!same(&v, sizeof(v), s, 75)) return 76; }
    { Tri v = GGC_RD(t, d76); if (!same(&v, sizeof(v), s, 76)) return 77; }
    { short v = GGC_RD(t, d77); if (!same(&v, sizeof(v), s, 77)) return 78; }
    { GGC_voidp v = GGC_RD(t, d78); if (!same(&v, sizeof(v), s, 78)) return 79; }
    { long v = GGC_RD(t, d79); if (!same(&v, sizeof(v), s, 79)) return 80; }
    { char v = GGC_RD(t, d80); if (!same(&v, sizeof(v), s, 80)) return 81; }
    { char v = GGC_RD(t, d81); if (!same(&v, sizeof(v), s, 81)) return 82; }
    { char v = GGC_RD(t, d82); if (!same(&v, sizeof(v), s, 82)) return 83; }
    { char v = GGC_RD(t, d83); if (!same(&v, sizeof(v), s, 83)) return 84; }
    { char v = GGC_RD(t, d84); if (!same(&v, sizeof(v), s, 84)) return 85; }
    { char v = GGC_RD(t, d85); if (!same(&v, sizeof(v), s, 85)) return 86; }
    { char v = GGC_RD(t, d86); if (!same(&v, sizeof(v), s, 86)) return 87; }
    { char v = GGC_RD(t, d87); if (!same(&v, sizeof(v), s, 87)) return 88; }
    { size_t v = GGC_RD(t, d88); if (!same(&v, sizeof(v), s, 88)) return 89; }
    { Tri v = GGC_RD(t, d89); if (!same(&v, sizeof(v), s, 89)) return 90; }
    { Tri v = GGC_RD(t, d90); if (!same(&v, sizeof(v), s, 90)) return 91; }
    { short v = GGC_RD(t, d91); if (!same(&v, sizeof(v), s, 91)) return 92; }
    return 0; }
static int zero_T56(void *o) { T56 t = (T56) o; if (GGC_RP(t, p0)) return 1; if (GGC_RP(t, p1)) return 1; if (GGC_RP(t, p2)) return 1; if (GGC_RP(t, p3)) return 1; if (GGC_RP(t, p4)) return 1; if (GGC_RP(t, p5)) return 1; if (GGC_RP(t, p6)) return 1; if (GGC_RP(t, p7)) return 1; if (GGC_RP(t, p8)) return 1; if (GGC_RP(t, p9)) return 1; if (GGC_RP(t, p10)) return 1; if (GGC_RP(t, p11)) return 1; if (GGC_RP(t, p12)) return 1; if (GGC_RP(t, p13)) return 1; if (GGC_RP(t, p14)) return 1; if (GGC_RP(t, p15)) return 1; if (GGC_RP(t, p16)) return 1; if (GGC_RP(t, p17)) return 1; if (GGC_RP(t, p18)) return 1; if (GGC_RP(t, p19)) return 1; if (GGC_RP(t, p20)) return 1; if (GGC_RP(t, p21)) return 1; if (GGC_RP(t, p22)) return 1; if (GGC_RP(t, p23)) return 1; if (GGC_RP(t, p24)) return 1; if (GGC_RP(t, p25)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T56[] = { offsetof(struct T56__ggggc_struct, p0__ptr) / sizeof(size_t), offsetof(struct T56__ggggc_struct, p1__ptr) / sizeof(size_t), offsetof(struct T56__ggggc_struct, p2__ptr) / sizeof(size_t), offsetof(struct T56__ggggc_struct, p3__ptr) / sizeof(size_t), offsetof(struct T56__ggggc_struct, p4__ptr) / sizeof(size_t), offsetof(struct T56__ggggc_struct, p5__ptr) / sizeof(size_t), offsetof(struct T56__ggggc_struct, p6__ptr) / sizeof(size_t), offsetof(struct T56__ggggc_struct, p7__ptr) / sizeof(size_t), offsetof(struct T56__ggggc_struct, p8__ptr) / sizeof(size_t), offsetof(struct T56__ggggc_struct, p9__ptr) / sizeof(size_t), offsetof(struct T56__ggggc_struct, p10__ptr) / sizeof(size_t), offsetof(struct T56__ggggc_struct, p11__ptr) / sizeof(size_t), offsetof(struct T56__ggggc_struct, p12__ptr) / sizeof(size_t), offsetof(struct T56__ggggc_struct, p13__ptr) / sizeof(size_t), offsetof(struct T56__ggggc_struct, p14__ptr) / sizeof(size_t), offsetof(struct T56__ggggc_struct, p15__ptr) / sizeof(size_t), offsetof(struct T56__ggggc_struct, p16__ptr) / sizeof(size_t), offsetof(struct T56__ggggc_struct, p17__ptr) / sizeof(size_t), offsetof(struct T56__ggggc_struct, p18__ptr) / sizeof(size_t), offsetof(struct T56__ggggc_struct, p19__ptr) / sizeof(size_t), offsetof(struct T56__ggggc_struct, p20__ptr) / sizeof(size_t), offsetof(struct T56__ggggc_struct, p21__ptr) / sizeof(size_t), offsetof(struct T56__ggggc_struct, p22__ptr) / sizeof(size_t), offsetof(struct T56__ggggc_struct, p23__ptr) / sizeof(size_t), offsetof(struct T56__ggggc_struct, p24__ptr) / sizeof(size_t), offsetof(struct T56__ggggc_struct, p25__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T57)
    GGC_MDATA(size_t, id);
    GGC_MPTR(Leaf, p0);
    GGC_MDATA(char, d0);
    GGC_MDATA(char, d1);
    GGC_MDATA(char, d2);
    GGC_MDATA(char, d3);
    GGC_MDATA(char, d4);
    GGC_MDATA(char, d5);
    GGC_MDATA(char, d6);
    GGC_MDATA(char, d7);
    GGC_MPTR(Leaf, p1);
    GGC_MPTR(Leaf, p2);
    GGC_MPTR(Leaf, p3);
    GGC_MPTR(Leaf, p4);
    GGC_MDATA(Tri, d8);
    GGC_MDATA(Tri, d9);
    GGC_MDATA(short, d10);
    GGC_MDATA(size_t, d11);
    GGC_MDATA(double, d12);
    GGC_MPTR(Leaf, p5);
    GGC_MPTR(Leaf, p6);
    GGC_MDATA(double, d13);
    GGC_MPTR(Leaf, p7);
    GGC_MDATA(int, d14);
    GGC_MDATA(int, d15);
    GGC_MPTR(Leaf, p8);
    GGC_MDATA(int, d16);
    GGC_MDATA(int, d17);
    GGC_MDATA(double, d18);
    GGC_MDATA(long, d19);
    GGC_MDATA(double, d20);
    GGC_MPTR(Leaf, p9);
    GGC_MPTR(Leaf, p10);
    GGC_MDATA(double, d21);
    GGC_MPTR(Leaf, p11);
    GGC_MPTR(Leaf, p12);
    GGC_MDATA(unsigned, d22);
    GGC_MDATA(unsigned, d23);
    GGC_MPTR(Leaf, p13);
    GGC_MPTR(Leaf, p14);
    GGC_MDATA(size_t, d24);
    GGC_MDATA(GGC_voidp, d25);
    GGC_MPTR(Leaf, p15);
    GGC_MDATA(int, d26);
    GGC_MDATA(int, d27);
    GGC_MDATA(char, d28);
    GGC_MDATA(char, d29);
    GGC_MDATA(char, d30);
    GGC_MDATA(char, d31);
    GGC_MDATA(char, d32);
    GGC_MDATA(char, d33);
    GGC_MDATA(char, d34);
    GGC_MDATA(char, d35);
    GGC_MDATA(float, d36);
    GGC_MDATA(float, d37);
    GGC_MPTR(Leaf, p16);
    GGC_MDATA(GGC_voidp, d38);
    GGC_MDATA(Tri, d39);
    GGC_MDATA(Tri, d40);
    GGC_MDATA(short, d41);
    GGC_MDATA(float, d42);
    GGC_MDATA(float, d43);
    GGC_MDATA(double, d44);
    GGC_MPTR(Leaf, p17);
    GGC_MDATA(long, d45);
    GGC_MPTR(Leaf, p18);
    GGC_MDATA(unsigned, d46);
    GGC_MDATA(unsigned, d47);
    GGC_MDATA(size_t, d48);
    GGC_MDATA(size_t, d49);
    GGC_MPTR(Leaf, p19);
    GGC_MDATA(long, d50);
    GGC_MDATA(long, d51);
    GGC_MPTR(Leaf, p20);
    GGC_MPTR(Leaf, p21);
    GGC_MPTR(Leaf, p22);
    GGC_MDATA(double, d52);
    GGC_MDATA(float, d53);
    GGC_MDATA(float, d54);
    GGC_MDATA(size_t, d55);
    GGC_MDATA(double, d56);
    GGC_MPTR(Leaf, p23);
    GGC_MDATA(unsigned, d57);
    GGC_MDATA(unsigned, d58);
    GGC_MDATA(double, d59);
    GGC_MDATA(long, d60);
    GGC_MDATA(GGC_voidp, d61);
    GGC_MPTR(Leaf, p24);
    GGC_MPTR(Leaf, p25);
    GGC_MDATA(size_t, d62);
    GGC_MDATA(GGC_voidp, d63);
    GGC_MDATA(unsigned, d64);
    GGC_MDATA(unsigned, d65);
    GGC_MDATA(GGC_voidp, d66);
    GGC_MDATA(float, d67);
    GGC_MDATA(float, d68);
GGC_END_TYPE(T57,
    GGC_PTR(T57, p0)
    GGC_PTR(T57, p1)
    GGC_PTR(T57, p2)
    GGC_PTR(T57, p3)
    GGC_PTR(T57, p4)
    GGC_PTR(T57, p5)
    GGC_PTR(T57, p6)
    GGC_PTR(T57, p7)
    GGC_PTR(T57, p8)
    GGC_PTR(T57, p9)
    GGC_PTR(T57, p10)
    GGC_PTR(T57, p11)
    GGC_PTR(T57, p12)
    GGC_PTR(T57, p13)
    GGC_PTR(T57, p14)
    GGC_PTR(T57, p15)
    GGC_PTR(T57, p16)
    GGC_PTR(T57, p17)
    GGC_PTR(T57, p18)
    GGC_PTR(T57, p19)
    GGC_PTR(T57, p20)
    GGC_PTR(T57, p21)
    GGC_PTR(T57, p22)
    GGC_PTR(T57, p23)
    GGC_PTR(T57, p24)
    GGC_PTR(T57, p25)
    )
static void *new_T57(void) { return GGC_NEW(T57); }
static void setp_T57(void *o, int k, Leaf v) { T57 t = (T57) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    case 1: GGC_WP(t, p1, v); break;
    case 2: GGC_WP(t, p2, v); break;
    case 3: GGC_WP(t, p3, v); break;
    case 4: GGC_WP(t, p4, v); break;
    case 5: GGC_WP(t, p5, v); break;
    case 6: GGC_WP(t, p6, v); break;
    case 7: GGC_WP(t, p7, v); break;
    case 8: GGC_WP(t, p8, v); break;
    case 9: GGC_WP(t, p9, v); break;
    case 10: GGC_WP(t, p10, v); break;
    case 11: GGC_WP(t, p11, v); break;
    case 12: GGC_WP(t, p12, v); break;
    case 13: GGC_WP(t, p13, v); break;
    case 14: GGC_WP(t, p14, v); break;
    case 15: GGC_WP(t, p15, v); break;
    case 16: GGC_WP(t, p16, v); break;
    case 17: GGC_WP(t, p17, v); break;
    case 18: GGC_WP(t, p18, v); break;
    case 19: GGC_WP(t, p19, v); break;
    case 20: GGC_WP(t, p20, v); break;
    case 21: GGC_WP(t, p21, v); break;
    case 22: GGC_WP(t, p22, v); break;
    case 23: GGC_WP(t, p23, v); break;
    case 24: GGC_WP(t, p24, v); break;
    case 25: GGC_WP(t, p25, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T57(void *o, int k) { T57 t = (T57) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    case 1: return GGC_RP(t, p1);
    case 2: return GGC_RP(t, p2);
    case 3: return GGC_RP(t, p3);
    case 4: return GGC_RP(t, p4);
    case 5: return GGC_RP(t, p5);
    case 6: return GGC_RP(t, p6);
    case 7: return GGC_RP(t, p7);
    case 8: return GGC_RP(t, p8);
    case 9: return GGC_RP(t, p9);
    case 10: return GGC_RP(t, p10);
    case 11: return GGC_RP(t, p11);
    case 12: return GGC_RP(t, p12);
    case 13: return GGC_RP(t, p13);
    case 14: return GGC_RP(t, p14);
    case 15: return GGC_RP(t, p15);
    case 16: return GGC_RP(t, p16);
    case 17: return GGC_RP(t, p17);
    case 18: return GGC_RP(t, p18);
    case 19: return GGC_RP(t, p19);
    case 20: return GGC_RP(t, p20);
    case 21: return GGC_RP(t, p21);
    case 22: return GGC_RP(t, p22);
    case 23: return GGC_RP(t, p23);
    case 24: return GGC_RP(t, p24);
    case 25: return GGC_RP(t, p25);
    default: return NULL; } }
static void setd_T57(void *o, uint64_t s) { T57 t = (T57) o; { size_t v = s; GGC_WD(t, id, v); }
    { char v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { char v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { char v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { char v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { char v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { char v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { char v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { char v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { Tri v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { Tri v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { short v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { size_t v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { double v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { double v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { int v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { int v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { int v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { int v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { double v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { long v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { double v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { double v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { unsigned v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { unsigned v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { size_t v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { int v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { int v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { char v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { char v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { char v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { char v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { char v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { char v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { char v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { char v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { float v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
    { float v; bits(&v, sizeof(v), s, 37); GGC_WD(t, d37, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 38); GGC_WD(t, d38, v); }
    { Tri v; bits(&v, sizeof(v), s, 39); GGC_WD(t, d39, v); }
    { Tri v; bits(&v, sizeof(v), s, 40); GGC_WD(t, d40, v); }
    { short v; bits(&v, sizeof(v), s, 41); GGC_WD(t, d41, v); }
    { float v; bits(&v, sizeof(v), s, 42); GGC_WD(t, d42, v); }
    { float v; bits(&v, sizeof(v), s, 43); GGC_WD(t, d43, v); }
    { double v; bits(&v, sizeof(v), s, 44); GGC_WD(t, d44, v); }
    { long v; bits(&v, sizeof(v), s, 45); GGC_WD(t, d45, v); }
    { unsigned v; bits(&v, sizeof(v), s, 46); GGC_WD(t, d46, v); }
    { unsigned v; bits(&v, sizeof(v), s, 47); GGC_WD(t, d47, v); }
    { size_t v; bits(&v, sizeof(v), s, 48); GGC_WD(t, d48, v); }
    { size_t v; bits(&v, sizeof(v), s, 49); GGC_WD(t, d49, v); }
    { long v; bits(&v, sizeof(v), s, 50); GGC_WD(t, d50, v); }
    { long v; bits(&v, sizeof(v), s, 51); GGC_WD(t, d51, v); }
    { double v; bits(&v, sizeof(v), s, 52); GGC_WD(t, d52, v); }
    { float v; bits(&v, sizeof(v), s, 53); GGC_WD(t, d53, v); }
    { float v; bits(&v, sizeof(v), s, 54); GGC_WD(t, d54, v); }
    { size_t v; bits(&v, sizeof(v), s, 55); GGC_WD(t, d55, v); }
    { double v; bits(&v, sizeof(v), s, 56); GGC_WD(t, d56, v); }
    { unsigned v; bits(&v, sizeof(v), s, 57); GGC_WD(t, d57, v); }
    { unsigned v; bits(&v, sizeof(v), s, 58); GGC_WD(t, d58, v); }
    { double v; bits(&v, sizeof(v), s, 59); GGC_WD(t, d59, v); }
    { long v; bits(&v, sizeof(v), s, 60); GGC_WD(t, d60, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 61); GGC_WD(t, d61, v); }
    { size_t v; bits(&v, sizeof(v), s, 62); GGC_WD(t, d62, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 63); GGC_WD(t, d63, v); }
    { unsigned v; bits(&v, sizeof(v), s, 64); GGC_WD(t, d64, v); }
    { unsigned v; bits(&v, sizeof(v), s, 65); GGC_WD(t, d65, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 66); GGC_WD(t, d66, v); }
    { float v; bits(&v, sizeof(v), s, 67); GGC_WD(t, d67, v); }
    { float v; bits(&v, sizeof(v), s, 68); GGC_WD(t, d68, v); }
}
static int chkd_T57(void *o, uint64_t s) { T57 t = (T57) o; if (GGC_RD(t, id) != s) return -1;
    { char v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { char v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { char v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { char v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { char v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { char v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { char v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { char v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { Tri v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { Tri v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { short v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { size_t v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { double v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { double v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { int v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { int v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { int v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { int v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { double v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { long v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { double v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { double v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { unsigned v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { unsigned v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { size_t v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { GGC_voidp v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { int v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { int v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { char v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { char v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { char v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { char v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { char v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { char v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { char v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { char v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { float v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    { float v = GGC_RD(t, d37); if (!same(&v, sizeof(v), s, 37)) return 38; }
    { GGC_voidp v = GGC_RD(t, d38); if (!same(&v, sizeof(v), s, 38)) return 39; }
    { Tri v = GGC_RD(t, d39); if (!same(&v, sizeof(v), s, 39)) return 40; }
    { Tri v = GGC_RD(t, d40); if (!same(&v, sizeof(v), s, 40)) return 41; }
    { short v = GGC_RD(t, d41); if (!same(&v, sizeof(v), s, 41)) return 42; }
    { float v = GGC_RD(t, d42); if (!same(&v, sizeof(v), s, 42)) return 43; }
    { float v = GGC_RD(t, d43); if (!same(&v, sizeof(v), s, 43)) return 44; }
    { double v = GGC_RD(t, d44); if (!same(&v, sizeof(v), s, 44)) return 45; }
    { long v = GGC_RD(t, d45); if (!same(&v, sizeof(v), s, 45)) return 46; }
    { unsigned v = GGC_RD(t, d46); if (!same(&v, sizeof(v), s, 46)) return 47; }
    { unsigned v = GGC_RD(t, d47); if (!same(&v, sizeof(v), s, 47)) return 48; }
    { size_t v = GGC_RD(t, d48); if (!same(&v, sizeof(v), s, 48)) return 49; }
    { size_t v = GGC_RD(t, d49); if (!same(&v, sizeof(v), s, 49)) return 50; }
    { long v = GGC_RD(t, d50); if (!same(&v, sizeof(v), s, 50)) return 51; }
    { long v = GGC_RD(t, d51); if (!same(&v, sizeof(v), s, 51)) return 52; }
    { double v = GGC_RD(t, d52); if (!same(&v, sizeof(v), s, 52)) return 53; }
    { float v = GGC_RD(t, d53); if (!same(&v, sizeof(v), s, 53)) return 54; }
    { float v = GGC_RD(t, d54); if (!same(&v, sizeof(v), s, 54)) return 55; }
    { size_t v = GGC_RD(t, d55); if (!same(&v, sizeof(v), s, 55)) return 56; }
    { double v = GGC_RD(t, d56); if (!same(&v, sizeof(v), s, 56)) return 57; }
    { unsigned v = GGC_RD(t, d57); if (!same(&v, sizeof(v), s, 57)) return 58; }
    { unsigned v = GGC_RD(t, d58); if (!same(&v, sizeof(v), s, 58)) return 59; }
    { double v = GGC_RD(t, d59); if (!same(&v, sizeof(v), s, 59)) return 60; }
    { long v = GGC_RD(t, d60); if (!same(&v, sizeof(v), s, 60)) return 61; }
    { GGC_voidp v = GGC_RD(t, d61); if (!same(&v, sizeof(v), s, 61)) return 62; }
    { size_t v = GGC_RD(t, d62); if (!same(&v, sizeof(v), s, 62)) return 63; }
    { GGC_voidp v = GGC_RD(t, d63); if (!same(&v, sizeof(v), s, 63)) return 64; }
    { unsigned v = GGC_RD(t, d64); if (!same(&v, sizeof(v), s, 64)) return 65; }
    { unsigned v = GGC_RD(t, d65); if (!same(&v, sizeof(v), s, 65)) return 66; }
    { GGC_voidp v = GGC_RD(t, d66); if (!same(&v, sizeof(v), s, 66)) return 67; }
    { float v = GGC_RD(t, d67); if (!same(&v, sizeof(v), s, 67)) return 68; }
    { float v = GGC_RD(t, d68); if (!same(&v, sizeof(v), s, 68)) return 69; }
    return 0; }
static int zero_T57(void *o) { T57 t = (T57) o; if (GGC_RP(t, p0)) return 1; if (GGC_RP(t, p1)) return 1; if (GGC_RP(t, p2)) return 1; if (GGC_RP(t, p3)) return 1; if (GGC_RP(t, p4)) return 1; if (GGC_RP(t, p5)) return 1; if (GGC_RP(t, p6)) return 1; if (GGC_RP(t, p7)) return 1; if (GGC_RP(t, p8)) return 1; if (GGC_RP(t, p9)) return 1; if (GGC_RP(t, p10)) return 1; if (GGC_RP(t, p11)) return 1; if (GGC_RP(t, p12)) return 1; if (GGC_RP(t, p13)) return 1; if (GGC_RP(t, p14)) return 1; if (GGC_RP(t, p15)) return 1; if (GGC_RP(t, p16)) return 1; if (GGC_RP(t, p17)) return 1; if (GGC_RP(t, p18)) return 1; if (GGC_RP(t, p19)) return 1; if (GGC_RP(t, p20)) return 1; if (GGC_RP(t, p21)) return 1; if (GGC_RP(t, p22)) return 1; if (GGC_RP(t, p23)) return 1; if (GGC_RP(t, p24)) return 1; if (GGC_RP(t, p25)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T57[] = { offsetof(struct T57__ggggc_struct, p0__ptr) / sizeof(size_t), offsetof(struct T57__ggggc_struct, p1__ptr) / sizeof(size_t), offsetof(struct T57__ggggc_struct, p2__ptr) / sizeof(size_t), offsetof(struct T57__ggggc_struct, p3__ptr) / sizeof(size_t), offsetof(struct T57__ggggc_struct, p4__ptr) / sizeof(size_t), offsetof(struct T57__ggggc_struct, p5__ptr) / sizeof(size_t), offsetof(struct T57__ggggc_struct, p6__ptr) / sizeof(size_t), offsetof(struct T57__ggggc_struct, p7__ptr) / sizeof(size_t), offsetof(struct T57__ggggc_struct, p8__ptr) / sizeof(size_t), offsetof(struct T57__ggggc_struct, p9__ptr) / sizeof(size_t), offsetof(struct T57__ggggc_struct, p10__ptr) / sizeof(size_t), offsetof(struct T57__ggggc_struct, p11__ptr) / sizeof(size_t), offsetof(struct T57__ggggc_struct, p12__ptr) / sizeof(size_t), offsetof(struct T57__ggggc_struct, p13__ptr) / sizeof(size_t), offsetof(struct T57__ggggc_struct, p14__ptr) / sizeof(size_t), offsetof(struct T57__ggggc_struct, p15__ptr) / sizeof(size_t), offsetof(struct T57__ggggc_struct, p16__ptr) / sizeof(size_t), offsetof(struct T57__ggggc_struct, p17__ptr) / sizeof(size_t), offsetof(struct T57__ggggc_struct, p18__ptr) / sizeof(size_t), offsetof(struct T57__ggggc_struct, p19__ptr) / sizeof(size_t), offsetof(struct T57__ggggc_struct, p20__ptr) / sizeof(size_t), offsetof(struct T57__ggggc_struct, p21__ptr) / sizeof(size_t), offsetof(struct T57__ggggc_struct, p22__ptr) / sizeof(size_t), offsetof(struct T57__ggggc_struct, p23__ptr) / sizeof(size_t), offsetof(struct T57__ggggc_struct, p24__ptr) / sizeof(size_t), offsetof(struct T57__ggggc_struct, p25__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T58)
    GGC_MDATA(size_t, id);
    GGC_MPTR(Leaf, p0);
    GGC_MDATA(Big3, d0);
    GGC_MDATA(char, d1);
    GGC_MDATA(char, d2);
    GGC_MDATA(char, d3);
    GGC_MDATA(char, d4);
    GGC_MDATA(char, d5);
    GGC_MDATA(char, d6);
    GGC_MDATA(char, d7);
    GGC_MDATA(char, d8);
    GGC_MPTR(Leaf, p1);
    GGC_MDATA(double, d9);
    GGC_MDATA(size_t, d10);
    GGC_MDATA(short, d11);
    GGC_MDATA(short, d12);
    GGC_MDATA(short, d13);
    GGC_MDATA(short, d14);
    GGC_MPTR(Leaf, p2);
    GGC_MPTR(Leaf, p3);
    GGC_MPTR(Leaf, p4);
    GGC_MPTR(Leaf, p5);
    GGC_MDATA(char, d15);
    GGC_MDATA(char, d16);
    GGC_MDATA(char, d17);
    GGC_MDATA(char, d18);
    GGC_MDATA(char, d19);
    GGC_MDATA(char, d20);
    GGC_MDATA(char, d21);
    GGC_MDATA(char, d22);
    GGC_MDATA(Tri, d23);
    GGC_MDATA(Tri, d24);
    GGC_MDATA(short, d25);
    GGC_MPTR(Leaf, p6);
    GGC_MPTR(Leaf, p7);
    GGC_MDATA(int, d26);
    GGC_MDATA(int, d27);
    GGC_MDATA(double, d28);
    GGC_MPTR(Leaf, p8);
    GGC_MDATA(size_t, d29);
    GGC_MDATA(char, d30);
    GGC_MDATA(char, d31);
    GGC_MDATA(char, d32);
    GGC_MDATA(char, d33);
    GGC_MDATA(char, d34);
    GGC_MDATA(char, d35);
    GGC_MDATA(char, d36);
    GGC_MDATA(char, d37);
    GGC_MDATA(GGC_voidp, d38);
    GGC_MPTR(Leaf, p9);
    GGC_MDATA(float, d39);
    GGC_MDATA(float, d40);
    GGC_MDATA(size_t, d41);
    GGC_MDATA(int, d42);
    GGC_MDATA(int, d43);
    GGC_MPTR(Leaf, p10);
    GGC_MDATA(char, d44);
    GGC_MDATA(char, d45);
    GGC_MDATA(char, d46);
    GGC_MDATA(char, d47);
    GGC_MDATA(char, d48);
    GGC_MDATA(char, d49);
    GGC_MDATA(char, d50);
    GGC_MDATA(char, d51);
    GGC_MDATA(size_t, d52);
    GGC_MPTR(Leaf, p11);
    GGC_MPTR(Leaf, p12);
    GGC_MDATA(float, d53);
    GGC_MDATA(float, d54);
    GGC_MPTR(Leaf, p13);
    GGC_MDATA(size_t, d55);
    GGC_MPTR(Leaf, p14);
    GGC_MPTR(Leaf, p15);
    GGC_MPTR(Leaf, p16);
    GGC_MDATA(size_t, d56);
    GGC_MPTR(Leaf, p17);
    GGC_MPTR(Leaf, p18);
    GGC_MDATA(size_t, d57);
    GGC_MDATA(double, d58);
    GGC_MDATA(char, d59);
    GGC_MDATA(char, d60);
    GGC_MDATA(char, d61);
    GGC_MDATA(char, d62);
    GGC_MDATA(char, d63);
    GGC_MDATA(char, d64);
    GGC_MDATA(char, d65);
    GGC_MDATA(char, d66);
    GGC_MDATA(long, d67);
    GGC_MDATA(size_t, d68);
    GGC_MPTR(Leaf, p19);
    GGC_MDATA(Tri, d69);
    GGC_MDATA(Tri, d70);
    GGC_MDATA(short, d71);
    GGC_MPTR(Leaf, p20);
    GGC_MDATA(double, d72);
    GGC_MPTR(Leaf, p21);
    GGC_MPTR(Leaf, p22);
    GGC_MPTR(Leaf, p23);
    GGC_MDATA(long, d73);
    GGC_MDATA(long, d74);
    GGC_MDATA(size_t, d75);
    GGC_MDATA(GGC_voidp, d76);
    GGC_MPTR(Leaf, p24);
    GGC_MPTR(Leaf, p25);
    GGC_MDATA(Big17, d77);
    GGC_MDATA(Tri, d78);
    GGC_MDATA(Tri, d79);
    GGC_MDATA(short, d80);
    GGC_MDATA(char, d81);
    GGC_MDATA(char, d82);
    GGC_MDATA(char, d83);
    GGC_MDATA(char, d84);
    GGC_MDATA(char, d85);
    GGC_MDATA(char, d86);
    GGC_MDATA(char, d87);
    GGC_MDATA(char, d88);
    GGC_MDATA(double, d89);
    GGC_MDATA(GGC_voidp, d90);
    GGC_MDATA(Big3, d91);
    GGC_MDATA(Big3, d92);
    GGC_MDATA(unsigned, d93);
    GGC_MDATA(unsigned, d94);
    GGC_MDATA(unsigned, d95);
    GGC_MDATA(unsigned, d96);
    GGC_MDATA(Tri, d97);
    GGC_MDATA(Tri, d98);
    GGC_MDATA(short, d99);
    GGC_MDATA(unsigned, d100);
    GGC_MDATA(unsigned, d101);
GGC_END_TYPE(T58,
    GGC_PTR(T58, p0)
    GGC_PTR(T58, p1)
    GGC_PTR(T58, p2)
    GGC_PTR(T58, p3)
    GGC_PTR(T58, p4)
    GGC_PTR(T58, p5)
    GGC_PTR(T58, p6)
    GGC_PTR(T58, p7)
    GGC_PTR(T58, p8)
    GGC_PTR(T58, p9)
    GGC_PTR(T58, p10)
    GGC_PTR(T58, p11)
    GGC_PTR(T58, p12)
    GGC_PTR(T58, p13)
    GGC_PTR(T58, p14)
    GGC_PTR(T58, p15)
    GGC_PTR(T58, p16)
    GGC_PTR(T58, p17)
    GGC_PTR(T58, p18)
    GGC_PTR(T58, p19)
    GGC_PTR(T58, p20)
    GGC_PTR(T58, p21)
    GGC_PTR(T58, p22)
    GGC_PTR(T58, p23)
    GGC_PTR(T58, p24)
    GGC_PTR(T58, p25)
    )
static void *new_T58(void) { return GGC_NEW(T58); }
static void setp_T58(void *o, int k, Leaf v) { T58 t = (T58) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    case 1: GGC_WP(t, p1, v); break;
    case 2: GGC_WP(t, p2, v); break;
    case 3: GGC_WP(t, p3, v); break;
    case 4: GGC_WP(t, p4, v); break;
    case 5: GGC_WP(t, p5, v); break;
    case 6: GGC_WP(t, p6, v); break;
    case 7: GGC_WP(t, p7, v); break;
    case 8: GGC_WP(t, p8, v); break;
    case 9: GGC_WP(t, p9, v); break;
    case 10: GGC_WP(t, p10, v); break;
    case 11: GGC_WP(t, p11, v); break;
    case 12: GGC_WP(t, p12, v); break;
    case 13: GGC_WP(t, p13, v); break;
    case 14: GGC_WP(t, p14, v); break;
    case 15: GGC_WP(t, p15, v); break;
    case 16: GGC_WP(t, p16, v); break;
    case 17: GGC_WP(t, p17, v); break;
    case 18: GGC_WP(t, p18, v); break;
    case 19: GGC_WP(t, p19, v); break;
    case 20: GGC_WP(t, p20, v); break;
    case 21: GGC_WP(t, p21, v); break;
    case 22: GGC_WP(t, p22, v); break;
    case 23: GGC_WP(t, p23, v); break;
    case 24: GGC_WP(t, p24, v); break;
    case 25: GGC_WP(t, p25, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T58(void *o, int k) { T58 t = (T58) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    case 1: return GGC_RP(t, p1);
    case 2: return GGC_RP(t, p2);
    case 3: return GGC_RP(t, p3);
    case 4: return GGC_RP(t, p4);
    case 5: return GGC_RP(t, p5);
    case 6: return GGC_RP(t, p6);
    case 7: return GGC_RP(t, p7);
    case 8: return GGC_RP(t, p8);
    case 9: return GGC_RP(t, p9);
    case 10: return GGC_RP(t, p10);
    case 11: return GGC_RP(t, p11);
    case 12: return GGC_RP(t, p12);
    case 13: return GGC_RP(t, p13);
    case 14: return GGC_RP(t, p14);
    case 15: return GGC_RP(t, p15);
    case 16: return GGC_RP(t, p16);
    case 17: return GGC_RP(t, p17);
    case 18: return GGC_RP(t, p18);
    case 19: return GGC_RP(t, p19);
    case 20: return GGC_RP(t, p20);
    case 21: return GGC_RP(t, p21);
    case 22: return GGC_RP(t, p22);
    case 23: return GGC_RP(t, p23);
    case 24: return GGC_RP(t, p24);
    case 25: return GGC_RP(t, p25);
    default: return NULL; } }
static void setd_T58(void *o, uint64_t s) { T58 t = (T58) o; { size_t v = s; GGC_WD(t, id, v); }
    { Big3 v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { char v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { char v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { char v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { char v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { char v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { char v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { char v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { char v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { double v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { size_t v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { short v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { short v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { short v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { short v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { char v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { char v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { char v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { char v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { char v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { char v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { char v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { char v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { Tri v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { Tri v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { short v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { int v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { int v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { double v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { size_t v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { char v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { char v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { char v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { char v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { char v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { char v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { char v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
    { char v; bits(&v, sizeof(v), s, 37); GGC_WD(t, d37, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 38); GGC_WD(t, d38, v); }
    { float v; bits(&v, sizeof(v), s, 39); GGC_WD(t, d39, v); }
    { float v; bits(&v, sizeof(v), s, 40); GGC_WD(t, d40, v); }
    { size_t v; bits(&v, sizeof(v), s, 41); GGC_WD(t, d41, v); }
    { int v; bits(&v, sizeof(v), s, 42); GGC_WD(t, d42, v); }
    { int v; bits(&v, sizeof(v), s, 43); GGC_WD(t, d43, v); }
    { char v; bits(&v, sizeof(v), s, 44); GGC_WD(t, d44, v); }
    { char v; bits(&v, sizeof(v), s, 45); GGC_WD(t, d45, v); }
    { char v; bits(&v, sizeof(v), s, 46); GGC_WD(t, d46, v); }
    { char v; bits(&v, sizeof(v), s, 47); GGC_WD(t, d47, v); }
    { char v; bits(&v, sizeof(v), s, 48); GGC_WD(t, d48, v); }
    { char v; bits(&v, sizeof(v), s, 49); GGC_WD(t, d49, v); }
    { char v; bits(&v, sizeof(v), s, 50); GGC_WD(t, d50, v); }
    { char v; bits(&v, sizeof(v), s, 51); GGC_WD(t, d51, v); }
    { size_t v; bits(&v, sizeof(v), s, 52); GGC_WD(t, d52, v); }
    { float v; bits(&v, sizeof(v), s, 53); GGC_WD(t, d53, v); }
    { float v; bits(&v, sizeof(v), s, 54); GGC_WD(t, d54, v); }
    { size_t v; bits(&v, sizeof(v), s, 55); GGC_WD(t, d55, v); }
    { size_t v; bits(&v, sizeof(v), s, 56); GGC_WD(t, d56, v); }
    { size_t v; bits(&v, sizeof(v), s, 57); GGC_WD(t, d57, v); }
    { double v; bits(&v, sizeof(v), s, 58); GGC_WD(t, d58, v); }
    { char v; bits(&v, sizeof(v), s, 59); GGC_WD(t, d59, v); }
    { char v; bits(&v, sizeof(v), s, 60); GGC_WD(t, d60, v); }
    { char v; bits(&v, sizeof(v), s, 61); GGC_WD(t, d61, v); }
    { char v; bits(&v, sizeof(v), s, 62); GGC_WD(t, d62, v); }
    { char v; bits(&v, sizeof(v), s, 63); GGC_WD(t, d63, v); }
    { char v; bits(&v, sizeof(v), s, 64); GGC_WD(t, d64, v); }
    { char v; bits(&v, sizeof(v), s, 65); GGC_WD(t, d65, v); }
    { char v; bits(&v, sizeof(v), s, 66); GGC_WD(t, d66, v); }
    { long v; bits(&v, sizeof(v), s, 67); GGC_WD(t, d67, v); }
    { size_t v; bits(&v, sizeof(v), s, 68); GGC_WD(t, d68, v); }
    { Tri v; bits(&v, sizeof(v), s, 69); GGC_WD(t, d69, v); }
    { Tri v; bits(&v, sizeof(v), s, 70); GGC_WD(t, d70, v); }
    { short v; bits(&v, sizeof(v), s, 71); GGC_WD(t, d71, v); }
    { double v; bits(&v, sizeof(v), s, 72); GGC_WD(t, d72, v); }
    { long v; bits(&v, sizeof(v), s, 73); GGC_WD(t, d73, v); }
    { long v; bits(&v, sizeof(v), s, 74); GGC_WD(t, d74, v); }
    { size_t v; bits(&v, sizeof(v), s, 75); GGC_WD(t, d75, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 76); GGC_WD(t, d76, v); }
    { Big17 v; bits(&v, sizeof(v), s, 77); GGC_WD(t, d77, v); }
    { Tri v; bits(&v, sizeof(v), s, 78); GGC_WD(t, d78, v); }
    { Tri v; bits(&v, sizeof(v), s, 79); GGC_WD(t, d79, v); }
    { short v; bits(&v, sizeof(v), s, 80); GGC_WD(t, d80, v); }
    { char v; bits(&v, sizeof(v), s, 81); GGC_WD(t, d81, v); }
    { char v; bits(&v, sizeof(v), s, 82); GGC_WD(t, d82, v); }
    { char v; bits(&v, sizeof(v), s, 83); GGC_WD(t, d83, v); }
    { char v; bits(&v, sizeof(v), s, 84); GGC_WD(t, d84, v); }
    { char v; bits(&v, sizeof(v), s, 85); GGC_WD(t, d85, v); }
    { char v; bits(&v, sizeof(v), s, 86); GGC_WD(t, d86, v); }
    { char v; bits(&v, sizeof(v), s, 87); GGC_WD(t, d87, v); }
    { char v; bits(&v, sizeof(v), s, 88); GGC_WD(t, d88, v); }
    { double v; bits(&v, sizeof(v), s, 89); GGC_WD(t, d89, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 90); GGC_WD(t, d90, v); }
    { Big3 v; bits(&v, sizeof(v), s, 91); GGC_WD(t, d91, v); }
    { Big3 v; bits(&v, sizeof(v), s, 92); GGC_WD(t, d92, v); }
    { unsigned v; bits(&v, sizeof(v), s, 93); GGC_WD(t, d93, v); }
    { unsigned v; bits(&v, sizeof(v), s, 94); GGC_WD(t, d94, v); }
    { unsigned v; bits(&v, sizeof(v), s, 95); GGC_WD(t, d95, v); }
    { unsigned v; bits(&v, sizeof(v), s, 96); GGC_WD(t, d96, v); }
    { Tri v; bits(&v, sizeof(v), s, 97); GGC_WD(t, d97, v); }
    { Tri v; bits(&v, sizeof(v), s, 98); GGC_WD(t, d98, v); }
    { short v; bits(&v, sizeof(v), s, 99); GGC_WD(t, d99, v); }
    { unsigned v; bits(&v, sizeof(v), s, 100); GGC_WD(t, d100, v); }
    { unsigned v; bits(&v, sizeof(v), s, 101); GGC_WD(t, d101, v); }
}
static int chkd_T58(void *o, uint64_t s) { T58 t = (T58) o; if (GGC_RD(t, id) != s) return -1;
    { Big3 v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { char v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { char v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { char v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { char v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { char v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { char v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { char v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { char v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { double v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { size_t v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { short v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { short v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { short v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { short v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { char v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { char v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { char v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { char v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { char v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { char v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { char v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { char v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { Tri v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { Tri v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { short v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { int v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { int v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { double v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { size_t v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { char v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { char v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { char v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { char v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { char v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { char v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { char v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    { char v = GGC_RD(t, d37); if (!same(&v, sizeof(v), s, 37)) return 38; }
    { GGC_voidp v = GGC_RD(t, d38); if (!same(&v, sizeof(v), s, 38)) return 39; }
    { float v = GGC_RD(t, d39); if (!same(&v, sizeof(v), s, 39)) return 40; }
    { float v = GGC_RD(t, d40); if (!same(&v, sizeof(v), s, 40)) return 41; }
    { size_t v = GGC_RD(t, d41); if (!same(&v, sizeof(v), s, 41)) return 42; }
    { int v = GGC_RD(t, d42); if (!same(&v, sizeof(v), s, 42)) return 43; }
    { int v = GGC_RD(t, d43); if (!same(&v, sizeof(v), s, 43)) return 44; }
    { char v = GGC_RD(t, d44); if (!same(&v, sizeof(v), s, 44)) return 45; }
    { char v = GGC_RD(t, d45); if (!same(&v, sizeof(v), s, 45)) return 46; }
    { char v = GGC_RD(t, d46); if (!same(&v, sizeof(v), s, 46)) return 47; }
    { char v = GGC_RD(t, d47); if (!same(&v, sizeof(v), s, 47)) return 48; }
    { char v = GGC_RD(t, d48); if (!same(&v, sizeof(v), s, 48)) return 49; }
    { char v = GGC_RD(t, d49); if (!same(&v, sizeof(v), s, 49)) return 50; }
    { char v = GGC_RD(t, d50); if (!same(&v, sizeof(v), s, 50)) return 51; }
    { char v = GGC_RD(t, d51); if (!same(&v, sizeof(v), s, 51)) return 52; }
    { size_t v = GGC_RD(t, d52); if (!same(&v, sizeof(v), s, 52)) return 53; }
    { float v = GGC_RD(t, d53); if (!same(&v, sizeof(v), s, 53)) return 54; }
    { float v = GGC_RD(t, d54); if (!same(&v, sizeof(v), s, 54)) return 55; }
    { size_t v = GGC_RD(t, d55); if (!same(&v, sizeof(v), s, 55)) return 56; }
    { size_t v = GGC_RD(t, d56); if (!same(&v, sizeof(v), s, 56)) return 57; }
    { size_t v = GGC_RD(t, d57); if (!same(&v, sizeof(v), s, 57)) return 58; }
    { double v = GGC_RD(t, d58); if (!same(&v, sizeof(v), s, 58)) return 59; }
    { char v = GGC_RD(t, d59); if (!same(&v, sizeof(v), s, 59)) return 60; }
    { char v = GGC_RD(t, d60); if (!same(&v, sizeof(v), s, 60)) return 61; }
    { char v = GGC_RD(t, d61); if (!same(&v, sizeof(v), s, 61)) return 62; }
    { char v = GGC_RD(t, d62); if (!same(&v, sizeof(v), s, 62)) return 63; }
    { char v = GGC_RD(t, d63); if (!same(&v, sizeof(v), s, 63)) return 64; }
    { char v = GGC_RD(t, d64); if (!same(&v, sizeof(v), s, 64)) return 65; }
    { char v = GGC_RD(t, d65); if (!same(&v, sizeof(v), s, 65)) return 66; }
    { char v = GGC_RD(t, d66); if (!same(&v, sizeof(v), s, 66)) return 67; }
    { long v = GGC_RD(t, d67); if (!same(&v, sizeof(v), s, 67)) return 68; }
    { size_t v = GGC_RD(t, d68); if (!same(&v, sizeof(v), s, 68)) return 69; }
    { Tri v = GGC_RD(t, d69); if (!same(&v, sizeof(v), s, 69)) return 70; }
    { Tri v = GGC_RD(t, d70); if (!same(&v, sizeof(v), s, 70)) return 71; }
    { short v = GGC_RD(t, d71); if (!same(&v, sizeof(v), s, 71)) return 72; }
    { double v = GGC_RD(t, d72); if (!same(&v, sizeof(v), s, 72)) return 73; }
    { long v = GGC_RD(t, d73); if (!same(&v, sizeof(v), s, 73)) return 74; }
    { long v = GGC_RD(t, d74); if (!same(&v, sizeof(v), s, 74)) return 75; }
    { size_t v = GGC_RD(t, d75); if (!same(&v, sizeof(v), s, 75)) return 76; }
    { GGC_voidp v = GGC_RD(t, d76); if (!same(&v, sizeof(v), s, 76)) return 77; }
    { Big17 v = GGC_RD(t, d77); if (!same(&v, sizeof(v), s, 77)) return 78; }
    { Tri v = GGC_RD(t, d78); if (!same(&v, sizeof(v), s, 78)) return 79; }
    { Tri v = GGC_RD(t, d79); if (!same(&v, sizeof(v), s, 79)) return 80; }
    { short v = GGC_RD(t, d80); if (!same(&v, sizeof(v), s, 80)) return 81; }
    { char v = GGC_RD(t, d81); if (!same(&v, sizeof(v), s, 81)) return 82; }
    { char v = GGC_RD(t, d82); if (!same(&v, sizeof(v), s, 82)) return 83; }
    { char v = GGC_RD(t, d83); if (!same(&v, sizeof(v), s, 83)) return 84; }
    { char v = GGC_RD(t, d84); if (!same(&v, sizeof(v), s, 84)) return 85; }
    { char v = GGC_RD(t, d85); if (!same(&v, sizeof(v), s, 85)) return 86; }
    { char v = GGC_RD(t, d86); if (!same(&v, sizeof(v), s, 86)) return 87; }
    { char v = GGC_RD(t, d87); if (!same(&v, sizeof(v), s, 87)) return 88; }
    { char v = GGC_RD(t, d88); if (!same(&v, sizeof(v), s, 88)) return 89; }
    { double v = GGC_RD(t, d89); if (!same(&v, sizeof(v), s, 89)) return 90; }
    { GGC_voidp v = GGC_RD(t, d90); if (!same(&v, sizeof(v), s, 90)) return 91; }
    { Big3 v = GGC_RD(t, d91); if (!same(&v, sizeof(v), s, 91)) return 92; }
    { Big3 v = GGC_RD(t, d92); if (!same(&v, sizeof(v), s, 92)) return 93; }
    { unsigned v = GGC_RD(t, d93); if (!same(&v, sizeof(v), s, 93)) return 94; }
    { unsigned v = GGC_RD(t, d94); if (!same(&v, sizeof(v), s, 94)) return 95; }
    { unsigned v = GGC_RD(t, d95); if (!same(&v, sizeof(v), s, 95)) return 96; }
    { unsigned v = GGC_RD(t, d96); if (!same(&v, sizeof(v), s, 96)) return 97; }
    { Tri v = GGC_RD(t, d97); if (!same(&v, sizeof(v), s, 97)) return 98; }
    { Tri v = GGC_RD(t, d98); if (!same(&v, sizeof(v), s, 98)) return 99; }
    { short v = GGC_RD(t, d99); if (!same(&v, sizeof(v), s, 99)) return 100; }
    { unsigned v = GGC_RD(t, d100); if (!same(&v, sizeof(v), s, 100)) return 101; }
    { unsigned v = GGC_RD(t, d101); if (!same(&v, sizeof(v), s, 101)) return 102; }
    return 0; }
static int zero_T58(void *o) { T58 t = (T58) o; if (GGC_RP(t, p0)) return 1; if (GGC_RP(t, p1)) return 1; if (GGC_RP(t, p2)) return 1; if (GGC_RP(t, p3)) return 1; if (GGC_RP(t, p4)) return 1; if (GGC_RP(t, p5)) return 1; if (GGC_RP(t, p6)) return 1; if (GGC_RP(t, p7)) return 1; if (GGC_RP(t, p8)) return 1; if (GGC_RP(t, p9)) return 1; if (GGC_RP(t, p10)) return 1; if (GGC_RP(t, p11)) return 1; if (GGC_RP(t, p12)) return 1; if (GGC_RP(t, p13)) return 1; if (GGC_RP(t, p14)) return 1; if (GGC_RP(t, p15)) return 1; if (GGC_RP(t, p16)) return 1; if (GGC_RP(t, p17)) return 1; if (GGC_RP(t, p18)) return 1; if (GGC_RP(t, p19)) return 1; if (GGC_RP(t, p20)) return 1; if (GGC_RP(t, p21)) return 1; if (GGC_RP(t, p22)) return 1; if (GGC_RP(t, p23)) return 1; if (GGC_RP(t, p24)) return 1; if (GGC_RP(t, p25)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T58[] = { offsetof(struct T58__ggggc_struct, p0__ptr) / sizeof(size_t), offsetof(struct T58__ggggc_struct, p1__ptr) / sizeof(size_t), offsetof(struct T58__ggggc_struct, p2__ptr) / sizeof(size_t), offsetof(struct T58__ggggc_struct, p3__ptr) / sizeof(size_t), offsetof(struct T58__ggggc_struct, p4__ptr) / sizeof(size_t), offsetof(struct T58__ggggc_struct, p5__ptr) / sizeof(size_t), offsetof(struct T58__ggggc_struct, p6__ptr) / sizeof(size_t), offsetof(struct T58__ggggc_struct, p7__ptr) / sizeof(size_t), offsetof(struct T58__ggggc_struct, p8__ptr) / sizeof(size_t), offsetof(struct T58__ggggc_struct, p9__ptr) / sizeof(size_t), offsetof(struct T58__ggggc_struct, p10__ptr) / sizeof(size_t), offsetof(struct T58__ggggc_struct, p11__ptr) / sizeof(size_t), offsetof(struct T58__ggggc_struct, p12__ptr) / sizeof(size_t), offsetof(struct T58__ggggc_struct, p13__ptr) / sizeof(size_t), offsetof(struct T58__ggggc_struct, p14__ptr) / sizeof(size_t), offsetof(struct T58__ggggc_struct, p15__ptr) / sizeof(size_t), offsetof(struct T58__ggggc_struct, p16__ptr) / sizeof(size_t), offsetof(struct T58__ggggc_struct, p17__ptr) / sizeof(size_t), offsetof(struct T58__ggggc_struct, p18__ptr) / sizeof(size_t), offsetof(struct T58__ggggc_struct, p19__ptr) / sizeof(size_t), offsetof(struct T58__ggggc_struct, p20__ptr) / sizeof(size_t), offsetof(struct T58__ggggc_struct, p21__ptr) / sizeof(size_t), offsetof(struct T58__ggggc_struct, p22__ptr) / sizeof(size_t), offsetof(struct T58__ggggc_struct, p23__ptr) / sizeof(size_t), offsetof(struct T58__ggggc_struct, p24__ptr) / sizeof(size_t), offsetof(struct T58__ggggc_struct, p25__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T59)
    GGC_MDATA(size_t, id);
    GGC_MPTR(Leaf, p0);
    GGC_MDATA(GGC_voidp, d0);
    GGC_MPTR(Leaf, p1);
    GGC_MDATA(float, d1);
    GGC_MDATA(float, d2);
    GGC_MPTR(Leaf, p2);
    GGC_MDATA(size_t, d3);
    GGC_MPTR(Leaf, p3);
    GGC_MDATA(int, d4);
    GGC_MDATA(int, d5);
    GGC_MPTR(Leaf, p4);
    GGC_MDATA(size_t, d6);
    GGC_MPTR(Leaf, p5);
    GGC_MPTR(Leaf, p6);
    GGC_MDATA(GGC_voidp, d7);
    GGC_MDATA(float, d8);
    GGC_MDATA(float, d9);
    GGC_MDATA(double, d10);
    GGC_MPTR(Leaf, p7);
    GGC_MPTR(Leaf, p8);
    GGC_MPTR(Leaf, p9);
    GGC_MDATA(int, d11);
    GGC_MDATA(int, d12);
    GGC_MPTR(Leaf, p10);
    GGC_MPTR(Leaf, p11);
    GGC_MPTR(Leaf, p12);
    GGC_MPTR(Leaf, p13);
    GGC_MPTR(Leaf, p14);
    GGC_MPTR(Leaf, p15);
    GGC_MDATA(long, d13);
    GGC_MPTR(Leaf, p16);
    GGC_MDATA(Big3, d14);
    GGC_MDATA(long, d15);
    GGC_MPTR(Leaf, p17);
    GGC_MPTR(Leaf, p18);
    GGC_MPTR(Leaf, p19);
    GGC_MPTR(Leaf, p20);
    GGC_MDATA(short, d16);
    GGC_MDATA(short, d17);
    GGC_MDATA(short, d18);
    GGC_MDATA(short, d19);
    GGC_MPTR(Leaf, p21);
    GGC_MPTR(Leaf, p22);
    GGC_MDATA(GGC_voidp, d20);
    GGC_MDATA(size_t, d21);
    GGC_MDATA(double, d22);
    GGC_MDATA(GGC_voidp, d23);
    GGC_MPTR(Leaf, p23);
    GGC_MPTR(Leaf, p24);
    GGC_MDATA(int, d24);
    GGC_MDATA(int, d25);
    GGC_MPTR(Leaf, p25);
    GGC_MDATA(size_t, d26);
    GGC_MPTR(Leaf, p26);
    GGC_MPTR(Leaf, p27);
    GGC_MPTR(Leaf, p28);
    GGC_MPTR(Leaf, p29);
    GGC_MPTR(Leaf, p30);
    GGC_MDATA(Tri, d27);
    GGC_MDATA(Tri, d28);
    GGC_MDATA(short, d29);
    GGC_MPTR(Leaf, p31);
    GGC_MDATA(GGC_voidp, d30);
    GGC_MPTR(Leaf, p32);
    GGC_MDATA(float, d31);
    GGC_MDATA(float, d32);
    GGC_MPTR(Leaf, p33);
    GGC_MPTR(Leaf, p34);
    GGC_MPTR(Leaf, p35);
    GGC_MPTR(Leaf, p36);
    GGC_MDATA(double, d33);
    GGC_MDATA(Big17, d34);
    GGC_MDATA(long, d35);
    GGC_MDATA(long, d36);
    GGC_MDATA(Big3, d37);
    GGC_MDATA(unsigned, d38);
    GGC_MDATA(unsigned, d39);
    GGC_MDATA(Big17, d40);
    GGC_MDATA(float, d41);
    GGC_MDATA(float, d42);
    GGC_MDATA(short, d43);
    GGC_MDATA(short, d44);
    GGC_MDATA(short, d45);
    GGC_MDATA(short, d46);
    GGC_MDATA(long, d47);
    GGC_MDATA(unsigned, d48);
    GGC_MDATA(unsigned, d49);
    GGC_MDATA(GGC_voidp, d50);
    GGC_MDATA(Big3, d51);
    GGC_MDATA(Big3, d52);
    GGC_MDATA(char, d53);
    GGC_MDATA(char, d54);
    GGC_MDATA(char, d55);
    GGC_MDATA(char, d56);
    GGC_MDATA(char, d57);
    GGC_MDATA(char, d58);
    GGC_MDATA(char, d59);
    GGC_MDATA(char, d60);
    GGC_MDATA(double, d61);
    GGC_MDATA(char, d62);
    GGC_MDATA(char, d63);
    GGC_MDATA(char, d64);
    GGC_MDATA(char, d65);
    GGC_MDATA(char, d66);
    GGC_MDATA(char, d67);
    GGC_MDATA(char, d68);
    GGC_MDATA(char, d69);
    GGC_MDATA(size_t, d70);
    GGC_MDATA(double, d71);
    GGC_MDATA(long, d72);
    GGC_MDATA(Big3, d73);
    GGC_MDATA(long, d74);
    GGC_MDATA(GGC_voidp, d75);
    GGC_MDATA(double, d76);
    GGC_MDATA(double, d77);
    GGC_MDATA(GGC_voidp, d78);
    GGC_MDATA(Tri, d79);
    GGC_MDATA(Tri, d80);
    GGC_MDATA(short, d81);
GGC_END_TYPE(T59,
    GGC_PTR(T59, p0)
    GGC_PTR(T59, p1)
    GGC_PTR(T59, p2)
    GGC_PTR(T59, p3)
    GGC_PTR(T59, p4)
    GGC_PTR(T59, p5)
    GGC_PTR(T59, p6)
    GGC_PTR(T59, p7)
    GGC_PTR(T59, p8)
    GGC_PTR(T59, p9)
    GGC_PTR(T59, p10)
    GGC_PTR(T59, p11)
    GGC_PTR(T59, p12)
    GGC_PTR(T59, p13)
    GGC_PTR(T59, p14)
    GGC_PTR(T59, p15)
    GGC_PTR(T59, p16)
    GGC_PTR(T59, p17)
    GGC_PTR(T59, p18)
    GGC_PTR(T59, p19)
    GGC_PTR(T59, p20)
    GGC_PTR(T59, p21)
    GGC_PTR(T59, p22)
    GGC_PTR(T59, p23)
    GGC_PTR(T59, p24)
    GGC_PTR(T59, p25)
    GGC_PTR(T59, p26)
    GGC_PTR(T59, p27)
    GGC_PTR(T59, p28)
    GGC_PTR(T59, p29)
    GGC_PTR(T59, p30)
    GGC_PTR(T59, p31)
    GGC_PTR(T59, p32)
    GGC_PTR(T59, p33)
    GGC_PTR(T59, p34)
    GGC_PTR(T59, p35)
    GGC_PTR(T59, p36)
    )
static void *new_T59(void) { return GGC_NEW(T59); }
static void setp_T59(void *o, int k, Leaf v) { T59 t = (T59) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    case 1: GGC_WP(t, p1, v); break;
    case 2: GGC_WP(t, p2, v); break;
    case 3: GGC_WP(t, p3, v); break;
    case 4: GGC_WP(t, p4, v); break;
    case 5: GGC_WP(t, p5, v); break;
    case 6: GGC_WP(t, p6, v); break;
    case 7: GGC_WP(t, p7, v); break;
    case 8: GGC_WP(t, p8, v); break;
    case 9: GGC_WP(t, p9, v); break;
    case 10: GGC_WP(t, p10, v); break;
    case 11: GGC_WP(t, p11, v); break;
    case 12: GGC_WP(t, p12, v); break;
    case 13: GGC_WP(t, p13, v); break;
    case 14: GGC_WP(t, p14, v); break;
    case 15: GGC_WP(t, p15, v); break;
    case 16: GGC_WP(t, p16, v); break;
    case 17: GGC_WP(t, p17, v); break;
    case 18: GGC_WP(t, p18, v); break;
    case 19: GGC_WP(t, p19, v); break;
    case 20: GGC_WP(t, p20, v); break;
    case 21: GGC_WP(t, p21, v); break;
    case 22: GGC_WP(t, p22, v); break;
    case 23: GGC_WP(t, p23, v); break;
    case 24: GGC_WP(t, p24, v); break;
    case 25: GGC_WP(t, p25, v); break;
    case 26: GGC_WP(t, p26, v); break;
    case 27: GGC_WP(t, p27, v); break;
    case 28: GGC_WP(t, p28, v); break;
    case 29: GGC_WP(t, p29, v); break;
    case 30: GGC_WP(t, p30, v); break;
    case 31: GGC_WP(t, p31, v); break;
    case 32: GGC_WP(t, p32, v); break;
    case 33: GGC_WP(t, p33, v); break;
    case 34: GGC_WP(t, p34, v); break;
    case 35: GGC_WP(t, p35, v); break;
    case 36: GGC_WP(t, p36, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T59(void *o, int k) { T59 t = (T59) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    case 1: return GGC_RP(t, p1);
    case 2: return GGC_RP(t, p2);
    case 3: return GGC_RP(t, p3);
    case 4: return GGC_RP(t, p4);
    case 5: return GGC_RP(t, p5);
    case 6: return GGC_RP(t, p6);
    case 7: return GGC_RP(t, p7);
    case 8: return GGC_RP(t, p8);
    case 9: return GGC_RP(t, p9);
    case 10: return GGC_RP(t, p10);
    case 11: return GGC_RP(t, p11);
    case 12: return GGC_RP(t, p12);
    case 13: return GGC_RP(t, p13);
    case 14: return GGC_RP(t, p14);
    case 15: return GGC_RP(t, p15);
    case 16: return GGC_RP(t, p16);
    case 17: return GGC_RP(t, p17);
    case 18: return GGC_RP(t, p18);
    case 19: return GGC_RP(t, p19);
    case 20: return GGC_RP(t, p20);
    case 21: return GGC_RP(t, p21);
    case 22: return GGC_RP(t, p22);
    case 23: return GGC_RP(t, p23);
    case 24: return GGC_RP(t, p24);
    case 25: return GGC_RP(t, p25);
    case 26: return GGC_RP(t, p26);
    case 27: return GGC_RP(t, p27);
    case 28: return GGC_RP(t, p28);
    case 29: return GGC_RP(t, p29);
    case 30: return GGC_RP(t, p30);
    case 31: return GGC_RP(t, p31);
    case 32: return GGC_RP(t, p32);
    case 33: return GGC_RP(t, p33);
    case 34: return GGC_RP(t, p34);
    case 35: return GGC_RP(t, p35);
    case 36: return GGC_RP(t, p36);
    default: return NULL; } }
static void setd_T59(void *o, uint64_t s) { T59 t = (T59) o; { size_t v = s; GGC_WD(t, id, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { float v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { float v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { size_t v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { int v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { int v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { size_t v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { float v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { float v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { double v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { int v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { int v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { long v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { Big3 v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { long v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { short v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { short v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { short v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { short v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { size_t v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { double v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { int v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { int v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { size_t v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { Tri v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { Tri v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { short v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { float v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { float v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { double v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { Big17 v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { long v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { long v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
    { Big3 v; bits(&v, sizeof(v), s, 37); GGC_WD(t, d37, v); }
    { unsigned v; bits(&v, sizeof(v), s, 38); GGC_WD(t, d38, v); }
    { unsigned v; bits(&v, sizeof(v), s, 39); GGC_WD(t, d39, v); }
    { Big17 v; bits(&v, sizeof(v), s, 40); GGC_WD(t, d40, v); }
    { float v; bits(&v, sizeof(v), s, 41); GGC_WD(t, d41, v); }
    { float v; bits(&v, sizeof(v), s, 42); GGC_WD(t, d42, v); }
    { short v; bits(&v, sizeof(v), s, 43); GGC_WD(t, d43, v); }
    { short v; bits(&v, sizeof(v), s, 44); GGC_WD(t, d44, v); }
    { short v; bits(&v, sizeof(v), s, 45); GGC_WD(t, d45, v); }
    { short v; bits(&v, sizeof(v), s, 46); GGC_WD(t, d46, v); }
    { long v; bits(&v, sizeof(v), s, 47); GGC_WD(t, d47, v); }
    { unsigned v; bits(&v, sizeof(v), s, 48); GGC_WD(t, d48, v); }
    { unsigned v; bits(&v, sizeof(v), s, 49); GGC_WD(t, d49, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 50); GGC_WD(t, d50, v); }
    { Big3 v; bits(&v, sizeof(v), s, 51); GGC_WD(t, d51, v); }
    { Big3 v; bits(&v, sizeof(v), s, 52); GGC_WD(t, d52, v); }
    { char v; bits(&v, sizeof(v), s, 53); GGC_WD(t, d53, v); }
    { char v; bits(&v, sizeof(v), s, 54); GGC_WD(t, d54, v); }
    { char v; bits(&v, sizeof(v), s, 55); GGC_WD(t, d55, v); }
    { char v; bits(&v, sizeof(v), s, 56); GGC_WD(t, d56, v); }
    { char v; bits(&v, sizeof(v), s, 57); GGC_WD(t, d57, v); }
    { char v; bits(&v, sizeof(v), s, 58); GGC_WD(t, d58, v); }
    { char v; bits(&v, sizeof(v), s, 59); GGC_WD(t, d59, v); }
    { char v; bits(&v, sizeof(v), s, 60); GGC_WD(t, d60, v); }
    { double v; bits(&v, sizeof(v), s, 61); GGC_WD(t, d61, v); }
    { char v; bits(&v, sizeof(v), s, 62); GGC_WD(t, d62, v); }
    { char v; bits(&v, sizeof(v), s, 63); GGC_WD(t, d63, v); }
    { char v; bits(&v, sizeof(v), s, 64); GGC_WD(t, d64, v); }
    { char v; bits(&v, sizeof(v), s, 65); GGC_WD(t, d65, v); }
    { char v; bits(&v, sizeof(v), s, 66); GGC_WD(t, d66, v); }
    { char v; bits(&v, sizeof(v), s, 67); GGC_WD(t, d67, v); }
    { char v; bits(&v, sizeof(v), s, 68); GGC_WD(t, d68, v); }
    { char v; bits(&v, sizeof(v), s, 69); GGC_WD(t, d69, v); }
    { size_t v; bits(&v, sizeof(v), s, 70); GGC_WD(t, d70, v); }
    { double v; bits(&v, sizeof(v), s, 71); GGC_WD(t, d71, v); }
    { long v; bits(&v, sizeof(v), s, 72); GGC_WD(t, d72, v); }
    { Big3 v; bits(&v, sizeof(v), s, 73); GGC_WD(t, d73, v); }
    { long v; bits(&v, sizeof(v), s, 74); GGC_WD(t, d74, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 75); GGC_WD(t, d75, v); }
    { double v; bits(&v, sizeof(v), s, 76); GGC_WD(t, d76, v); }
    { double v; bits(&v, sizeof(v), s, 77); GGC_WD(t, d77, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 78); GGC_WD(t, d78, v); }
    { Tri v; bits(&v, sizeof(v), s, 79); GGC_WD(t, d79, v); }
    { Tri v; bits(&v, sizeof(v), s, 80); GGC_WD(t, d80, v); }
    { short v; bits(&v, sizeof(v), s, 81); GGC_WD(t, d81, v); }
}
static int chkd_T59(void *o, uint64_t s) { T59 t = (T59) o; if (GGC_RD(t, id) != s) return -1;
    { GGC_voidp v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { float v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { float v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { size_t v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { int v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { int v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { size_t v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { GGC_voidp v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { float v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { float v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { double v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { int v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { int v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { long v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { Big3 v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { long v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { short v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { short v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { short v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { short v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { GGC_voidp v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { size_t v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { double v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { GGC_voidp v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { int v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { int v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { size_t v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { Tri v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { Tri v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { short v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { GGC_voidp v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { float v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { float v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { double v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { Big17 v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { long v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { long v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    { Big3 v = GGC_RD(t, d37); if (!same(&v, sizeof(v), s, 37)) return 38; }
    { unsigned v = GGC_RD(t, d38); if (!same(&v, sizeof(v), s, 38)) return 39; }
    { unsigned v = GGC_RD(t, d39); if (!same(&v, sizeof(v), s, 39)) return 40; }
    { Big17 v = GGC_RD(t, d40); if (!same(&v, sizeof(v), s, 40)) return 41; }
    { float v = GGC_RD(t, d41); if (!same(&v, sizeof(v), s, 41)) return 42; }
    { float v = GGC_RD(t, d42); if (!same(&v, sizeof(v), s, 42)) return 43; }
    { short v = GGC_RD(t, d43); if (!same(&v, sizeof(v), s, 43)) return 44; }
    { short v = GGC_RD(t, d44); if (!same(&v, sizeof(v), s, 44)) return 45; }
    { short v = GGC_RD(t, d45); if (!same(&v, sizeof(v), s, 45)) return 46; }
    { short v = GGC_RD(t, d46); if (!same(&v, sizeof(v), s, 46)) return 47; }
    { long v = GGC_RD(t, d47); if (!same(&v, sizeof(v), s, 47)) return 48; }
    { unsigned v = GGC_RD(t, d48); if (!same(&v, sizeof(v), s, 48)) return 49; }
    { unsigned v = GGC_RD(t, d49); if (!same(&v, sizeof(v), s, 49)) return 50; }
    { GGC_voidp v = GGC_RD(t, d50); if (!same(&v, sizeof(v), s, 50)) return 51; }
    { Big3 v = GGC_RD(t, d51); if (!same(&v, sizeof(v), s, 51)) return 52; }
    { Big3 v = GGC_RD(t, d52); if (!same(&v, sizeof(v), s, 52)) return 53; }
    { char v = GGC_RD(t, d53); if (!same(&v, sizeof(v), s, 53)) return 54; }
    { char v = GGC_RD(t, d54); if (!same(&v, sizeof(v), s, 54)) return 55; }
    { char v = GGC_RD(t, d55); if (!same(&v, sizeof(v), s, 55)) return 56; }
    { char v = GGC_RD(t, d56); if (!same(&v, sizeof(v), s, 56)) return 57; }
    { char v = GGC_RD(t, d57); if (!same(&v, sizeof(v), s, 57)) return 58; }
    { char v = GGC_RD(t, d58); if (!same(&v, sizeof(v), s, 58)) return 59; }
    { char v = GGC_RD(t, d59); if (!same(&v, sizeof(v), s, 59)) return 60; }
    { char v = GGC_RD(t, d60); if (!same(&v, sizeof(v), s, 60)) return 61; }
    { double v = GGC_RD(t, d61); if (!same(&v, sizeof(v), s, 61)) return 62; }
    { char v = GGC_RD(t, d62); if (!same(&v, sizeof(v), s, 62)) return 63; }
    { char v = GGC_RD(t, d63); if (!same(&v, sizeof(v), s, 63)) return 64; }
    { char v = GGC_RD(t, d64); if (!same(&v, sizeof(v), s, 64)) return 65; }
    { char v = GGC_RD(t, d65); if (!same(&v, sizeof(v), s, 65)) return 66; }
    { char v = GGC_RD(t, d66); if (!same(&v, sizeof(v), s, 66)) return 67; }
    { char v = GGC_RD(t, d67); if (!same(&v, sizeof(v), s, 67)) return 68; }
    { char v = GGC_RD(t, d68); if (!same(&v, sizeof(v), s, 68)) return 69; }
    { char v = GGC_RD(t, d69); if (!same(&v, sizeof(v), s, 69)) return 70; }
    { size_t v = GGC_RD(t, d70); if (!same(&v, sizeof(v), s, 70)) return 71; }
    { double v = GGC_RD(t, d71); if (!same(&v, sizeof(v), s, 71)) return 72; }
    { long v = GGC_RD(t, d72); if (!same(&v, sizeof(v), s, 72)) return 73; }
    { Big3 v = GGC_RD(t, d73); if (!same(&v, sizeof(v), s, 73)) return 74; }
    { long v = GGC_RD(t, d74); if (!same(&v, sizeof(v), s, 74)) return 75; }
    { GGC_voidp v = GGC_RD(t, d75); if (!same(&v, sizeof(v), s, 75)) return 76; }
    { double v = GGC_RD(t, d76); if (!same(&v, sizeof(v), s, 76)) return 77; }
    { double v = GGC_RD(t, d77); if (!same(&v, sizeof(v), s, 77)) return 78; }
    { GGC_voidp v = GGC_RD(t, d78); if (!same(&v, sizeof(v), s, 78)) return 79; }
    { Tri v = GGC_RD(t, d79); if (!same(&v, sizeof(v), s, 79)) return 80; }
    { Tri v = GGC_RD(t, d80); if (!same(&v, sizeof(v), s, 80)) return 81; }
    { short v = GGC_RD(t, d81); if (!same(&v, sizeof(v), s, 81)) return 82; }
    return 0; }
static int zero_T59(void *o) { T59 t = (T59) o; if (GGC_RP(t, p0)) return 1; if (GGC_RP(t, p1)) return 1; if (GGC_RP(t, p2)) return 1; if (GGC_RP(t, p3)) return 1; if (GGC_RP(t, p4)) return 1; if (GGC_RP(t, p5)) return 1; if (GGC_RP(t, p6)) return 1; if (GGC_RP(t, p7)) return 1; if (GGC_RP(t, p8)) return 1; if (GGC_RP(t, p9)) return 1; if (GGC_RP(t, p10)) return 1; if (GGC_RP(t, p11)) return 1; if (GGC_RP(t, p12)) return 1; if (GGC_RP(t, p13)) return 1; if (GGC_RP(t, p14)) return 1; if (GGC_RP(t, p15)) return 1; if (GGC_RP(t, p16)) return 1; if (GGC_RP(t, p17)) return 1; if (GGC_RP(t, p18)) return 1; if (GGC_RP(t, p19)) return 1; if (GGC_RP(t, p20)) return 1; if (GGC_RP(t, p21)) return 1; if (GGC_RP(t, p22)) return 1; if (GGC_RP(t, p23)) return 1; if (GGC_RP(t, p24)) return 1; if (GGC_RP(t, p25)) return 1; if (GGC_RP(t, p26)) return 1; if (GGC_RP(t, p27)) return 1; if (GGC_RP(t, p28)) return 1; if (GGC_RP(t, p29)) return 1; if (GGC_RP(t, p30)) return 1; if (GGC_RP(t, p31)) return 1; if (GGC_RP(t, p32)) return 1; if (GGC_RP(t, p33)) return 1; if (GGC_RP(t, p34)) return 1; if (GGC_RP(t, p35)) return 1; if (GGC_RP(t, p36)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T59[] = { offsetof(struct T59__ggggc_struct, p0__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p1__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p2__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p3__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p4__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p5__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p6__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p7__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p8__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p9__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p10__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p11__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p12__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p13__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p14__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p15__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p16__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p17__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p18__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p19__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p20__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p21__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p22__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p23__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p24__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p25__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p26__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p27__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p28__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p29__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p30__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p31__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p32__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p33__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p34__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p35__ptr) / sizeof(size_t), offsetof(struct T59__ggggc_struct, p36__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T60)
    GGC_MDATA(size_t, id);
    GGC_MPTR(Leaf, p0);
    GGC_MPTR(Leaf, p1);
    GGC_MPTR(Leaf, p2);
    GGC_MDATA(double, d0);
    GGC_MPTR(Leaf, p3);
    GGC_MPTR(Leaf, p4);
    GGC_MPTR(Leaf, p5);
    GGC_MPTR(Leaf, p6);
    GGC_MPTR(Leaf, p7);
    GGC_MDATA(GGC_voidp, d1);
    GGC_MDATA(double, d2);
    GGC_MPTR(Leaf, p8);
    GGC_MDATA(size_t, d3);
    GGC_MPTR(Leaf, p9);
    GGC_MPTR(Leaf, p10);
    GGC_MDATA(GGC_voidp, d4);
    GGC_MDATA(Tri, d5);
    GGC_MDATA(Tri, d6);
    GGC_MDATA(short, d7);
    GGC_MPTR(Leaf, p11);
    GGC_MDATA(size_t, d8);
    GGC_MDATA(long, d9);
    GGC_MDATA(double, d10);
    GGC_MPTR(Leaf, p12);
    GGC_MPTR(Leaf, p13);
    GGC_MPTR(Leaf, p14);
    GGC_MPTR(Leaf, p15);
    GGC_MDATA(double, d11);
    GGC_MDATA(int, d12);
    GGC_MDATA(int, d13);
    GGC_MDATA(long, d14);
    GGC_MPTR(Leaf, p16);
    GGC_MDATA(size_t, d15);
    GGC_MDATA(Big3, d16);
    GGC_MDATA(GGC_voidp, d17);
    GGC_MDATA(int, d18);
    GGC_MDATA(int, d19);
    GGC_MDATA(GGC_voidp, d20);
    GGC_MPTR(Leaf, p17);
    GGC_MPTR(Leaf, p18);
    GGC_MDATA(size_t, d21);
    GGC_MPTR(Leaf, p19);
    GGC_MDATA(Tri, d22);
    GGC_MDATA(Tri, d23);
    GGC_MDATA(short, d24);
    GGC_MPTR(Leaf, p20);
    GGC_MPTR(Leaf, p21);
    GGC_MDATA(GGC_voidp, d25);
    GGC_MPTR(Leaf, p22);
    GGC_MDATA(short, d26);
    GGC_MDATA(short, d27);
    GGC_MDATA(short, d28);
    GGC_MDATA(short, d29);
    GGC_MPTR(Leaf, p23);
    GGC_MDATA(Tri, d30);
    GGC_MDATA(Tri, d31);
    GGC_MDATA(short, d32);
    GGC_MPTR(Leaf, p24);
    GGC_MPTR(Leaf, p25);
    GGC_MDATA(GGC_voidp, d33);
    GGC_MDATA(unsigned, d34);
    GGC_MDATA(unsigned, d35);
    GGC_MDATA(Tri, d36);
    GGC_MDATA(Tri, d37);
    GGC_MDATA(short, d38);
    GGC_MDATA(size_t, d39);
    GGC_MDATA(char, d40);
    GGC_MDATA(char, d41);
    GGC_MDATA(char, d42);
    GGC_MDATA(char, d43);
    GGC_MDATA(char, d44);
    GGC_MDATA(char, d45);
    GGC_MDATA(char, d46);
    GGC_MDATA(char, d47);
    GGC_MDATA(Big3, d48);
    GGC_MPTR(Leaf, p26);
    GGC_MPTR(Leaf, p27);
    GGC_MDATA(float, d49);
    GGC_MDATA(float, d50);
    GGC_MDATA(double, d51);
    GGC_MDATA(GGC_voidp, d52);
    GGC_MDATA(long, d53);
    GGC_MDATA(Tri, d54);
    GGC_MDATA(Tri, d55);
    GGC_MDATA(short, d56);
    GGC_MDATA(int, d57);
    GGC_MDATA(int, d58);
    GGC_MDATA(short, d59);
    GGC_MDATA(short, d60);
    GGC_MDATA(short, d61);
    GGC_MDATA(short, d62);
    GGC_MDATA(GGC_voidp, d63);
    GGC_MDATA(float, d64);
    GGC_MDATA(float, d65);
    GGC_MDATA(Big3, d66);
    GGC_MDATA(size_t, d67);
    GGC_MDATA(unsigned, d68);
    GGC_MDATA(unsigned, d69);
    GGC_MDATA(long, d70);
    GGC_MDATA(float, d71);
    GGC_MDATA(float, d72);
    GGC_MDATA(float, d73);
    GGC_MDATA(float, d74);
    GGC_MDATA(long, d75);
    GGC_MDATA(long, d76);
    GGC_MDATA(long, d77);
    GGC_MDATA(float, d78);
    GGC_MDATA(float, d79);
    GGC_MDATA(Big3, d80);
    GGC_MDATA(Big17, d81);
    GGC_MDATA(float, d82);
    GGC_MDATA(float, d83);
    GGC_MDATA(double, d84);
    GGC_MDATA(Big17, d85);
    GGC_MDATA(double, d86);
    GGC_MDATA(float, d87);
    GGC_MDATA(float, d88);
    GGC_MDATA(Big17, d89);
    GGC_MDATA(unsigned, d90);
    GGC_MDATA(unsigned, d91);
    GGC_MDATA(Big17, d92);
    GGC_MDATA(float, d93);
    GGC_MDATA(float, d94);
    GGC_MDATA(unsigned, d95);
    GGC_MDATA(unsigned, d96);
    GGC_MDATA(Big17, d97);
    GGC_MDATA(short, d98);
    GGC_MDATA(short, d99);
    GGC_MDATA(short, d100);
    GGC_MDATA(short, d101);
    GGC_MDATA(Big3, d102);
GGC_END_TYPE(T60,
    GGC_PTR(T60, p0)
    GGC_PTR(T60, p1)
    GGC_PTR(T60, p2)
    GGC_PTR(T60, p3)
    GGC_PTR(T60, p4)
    GGC_PTR(T60, p5)
    GGC_PTR(T60, p6)
    GGC_PTR(T60, p7)
    GGC_PTR(T60, p8)
    GGC_PTR(T60, p9)
    GGC_PTR(T60, p10)
    GGC_PTR(T60, p11)
    GGC_PTR(T60, p12)
    GGC_PTR(T60, p13)
    GGC_PTR(T60, p14)
    GGC_PTR(T60, p15)
    GGC_PTR(T60, p16)
    GGC_PTR(T60, p17)
    GGC_PTR(T60, p18)
    GGC_PTR(T60, p19)
    GGC_PTR(T60, p20)
    GGC_PTR(T60, p21)
    GGC_PTR(T60, p22)
    GGC_PTR(T60, p23)
    GGC_PTR(T60, p24)
    GGC_PTR(T60, p25)
    GGC_PTR(T60, p26)
    GGC_PTR(T60, p27)
    )
static void *new_T60(void) { return GGC_NEW(T60); }
static void setp_T60(void *o, int k, Leaf v) { T60 t = (T60) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    case 1: GGC_WP(t, p1, v); break;
    case 2: GGC_WP(t, p2, v); break;
    case 3: GGC_WP(t, p3, v); break;
    case 4: GGC_WP(t, p4, v); break;
    case 5: GGC_WP(t, p5, v); break;
    case 6: GGC_WP(t, p6, v); break;
    case 7: GGC_WP(t, p7, v); break;
    case 8: GGC_WP(t, p8, v); break;
    case 9: GGC_WP(t, p9, v); break;
    case 10: GGC_WP(t, p10, v); break;
    case 11: GGC_WP(t, p11, v); break;
    case 12: GGC_WP(t, p12, v); break;
    case 13: GGC_WP(t, p13, v); break;
    case 14: GGC_WP(t, p14, v); break;
    case 15: GGC_WP(t, p15, v); break;
    case 16: GGC_WP(t, p16, v); break;
    case 17: GGC_WP(t, p17, v); break;
    case 18: GGC_WP(t, p18, v); break;
    case 19: GGC_WP(t, p19, v); break;
    case 20: GGC_WP(t, p20, v); break;
    case 21: GGC_WP(t, p21, v); break;
    case 22: GGC_WP(t, p22, v); break;
    case 23: GGC_WP(t, p23, v); break;
    case 24: GGC_WP(t, p24, v); break;
    case 25: GGC_WP(t, p25, v); break;
    case 26: GGC_WP(t, p26, v); break;
    case 27: GGC_WP(t, p27, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T60(void *o, int k) { T60 t = (T60) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    case 1: return GGC_RP(t, p1);
    case 2: return GGC_RP(t, p2);
    case 3: return GGC_RP(t, p3);
    case 4: return GGC_RP(t, p4);
    case 5: return GGC_RP(t, p5);
    case 6: return GGC_RP(t, p6);
    case 7: return GGC_RP(t, p7);
    case 8: return GGC_RP(t, p8);
    case 9: return GGC_RP(t, p9);
    case 10: return GGC_RP(t, p10);
    case 11: return GGC_RP(t, p11);
    case 12: return GGC_RP(t, p12);
    case 13: return GGC_RP(t, p13);
    case 14: return GGC_RP(t, p14);
    case 15: return GGC_RP(t, p15);
    case 16: return GGC_RP(t, p16);
    case 17: return GGC_RP(t, p17);
    case 18: return GGC_RP(t, p18);
    case 19: return GGC_RP(t, p19);
    case 20: return GGC_RP(t, p20);
    case 21: return GGC_RP(t, p21);
    case 22: return GGC_RP(t, p22);
    case 23: return GGC_RP(t, p23);
    case 24: return GGC_RP(t, p24);
    case 25: return GGC_RP(t, p25);
    case 26: return GGC_RP(t, p26);
    case 27: return GGC_RP(t, p27);
    default: return NULL; } }
static void setd_T60(void *o, uint64_t s) { T60 t = (T60) o; { size_t v = s; GGC_WD(t, id, v); }
    { double v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { double v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { size_t v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { Tri v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { Tri v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { short v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { size_t v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { long v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { double v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { double v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { int v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { int v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { long v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { size_t v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { Big3 v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { int v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { int v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { size_t v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { Tri v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { Tri v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { short v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { short v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { short v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { short v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { short v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { Tri v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { Tri v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { short v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { unsigned v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { unsigned v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { Tri v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
    { Tri v; bits(&v, sizeof(v), s, 37); GGC_WD(t, d37, v); }
    { short v; bits(&v, sizeof(v), s, 38); GGC_WD(t, d38, v); }
    { size_t v; bits(&v, sizeof(v), s, 39); GGC_WD(t, d39, v); }
    { char v; bits(&v, sizeof(v), s, 40); GGC_WD(t, d40, v); }
    { char v; bits(&v, sizeof(v), s, 41); GGC_WD(t, d41, v); }
    { char v; bits(&v, sizeof(v), s, 42); GGC_WD(t, d42, v); }
    { char v; bits(&v, sizeof(v), s, 43); GGC_WD(t, d43, v); }
    { char v; bits(&v, sizeof(v), s, 44); GGC_WD(t, d44, v); }
    { char v; bits(&v, sizeof(v), s, 45); GGC_WD(t, d45, v); }
    { char v; bits(&v, sizeof(v), s, 46); GGC_WD(t, d46, v); }
    { char v; bits(&v, sizeof(v), s, 47); GGC_WD(t, d47, v); }
    { Big3 v; bits(&v, sizeof(v), s, 48); GGC_WD(t, d48, v); }
    { float v; bits(&v, sizeof(v), s, 49); GGC_WD(t, d49, v); }
    { float v; bits(&v, sizeof(v), s, 50); GGC_WD(t, d50, v); }
    { double v; bits(&v, sizeof(v), s, 51); GGC_WD(t, d51, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 52); GGC_WD(t, d52, v); }
    { long v; bits(&v, sizeof(v), s, 53); GGC_WD(t, d53, v); }
    { Tri v; bits(&v, sizeof(v), s, 54); GGC_WD(t, d54, v); }
    { Tri v; bits(&v, sizeof(v), s, 55); GGC_WD(t, d55, v); }
    { short v; bits(&v, sizeof(v), s, 56); GGC_WD(t, d56, v); }
    { int v; bits(&v, sizeof(v), s, 57); GGC_WD(t, d57, v); }
    { int v; bits(&v, sizeof(v), s, 58); GGC_WD(t, d58, v); }
    { short v; bits(&v, sizeof(v), s, 59); GGC_WD(t, d59, v); }
    { short v; bits(&v, sizeof(v), s, 60); GGC_WD(t, d60, v); }
    { short v; bits(&v, sizeof(v), s, 61); GGC_WD(t, d61, v); }
    { short v; bits(&v, sizeof(v), s, 62); GGC_WD(t, d62, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 63); GGC_WD(t, d63, v); }
    { float v; bits(&v, sizeof(v), s, 64); GGC_WD(t, d64, v); }
    { float v; bits(&v, sizeof(v), s, 65); GGC_WD(t, d65, v); }
    { Big3 v; bits(&v, sizeof(v), s, 66); GGC_WD(t, d66, v); }
    { size_t v; bits(&v, sizeof(v), s, 67); GGC_WD(t, d67, v); }
    { unsigned v; bits(&v, sizeof(v), s, 68); GGC_WD(t, d68, v); }
    { unsigned v; bits(&v, sizeof(v), s, 69); GGC_WD(t, d69, v); }
    { long v; bits(&v, sizeof(v), s, 70); GGC_WD(t, d70, v); }
    { float v; bits(&v, sizeof(v), s, 71); GGC_WD(t, d71, v); }
    { float v; bits(&v, sizeof(v), s, 72); GGC_WD(t, d72, v); }
    { float v; bits(&v, sizeof(v), s, 73); GGC_WD(t, d73, v); }
    { float v; bits(&v, sizeof(v), s, 74); GGC_WD(t, d74, v); }
    { long v; bits(&v, sizeof(v), s, 75); GGC_WD(t, d75, v); }
    { long v; bits(&v, sizeof(v), s, 76); GGC_WD(t, d76, v); }
    { long v; bits(&v, sizeof(v), s, 77); GGC_WD(t, d77, v); }
    { float v; bits(&v, sizeof(v), s, 78); GGC_WD(t, d78, v); }
    { float v; bits(&v, sizeof(v), s, 79); GGC_WD(t, d79, v); }
    { Big3 v; bits(&v, sizeof(v), s, 80); GGC_WD(t, d80, v); }
    { Big17 v; bits(&v, sizeof(v), s, 81); GGC_WD(t, d81, v); }
    { float v; bits(&v, sizeof(v), s, 82); GGC_WD(t, d82, v); }
    { float v; bits(&v, sizeof(v), s, 83); GGC_WD(t, d83, v); }
    { double v; bits(&v, sizeof(v), s, 84); GGC_WD(t, d84, v); }
    { Big17 v; bits(&v, sizeof(v), s, 85); GGC_WD(t, d85, v); }
    { double v; bits(&v, sizeof(v), s, 86); GGC_WD(t, d86, v); }
    { float v; bits(&v, sizeof(v), s, 87); GGC_WD(t, d87, v); }
    { float v; bits(&v, sizeof(v), s, 88); GGC_WD(t, d88, v); }
    { Big17 v; bits(&v, sizeof(v), s, 89); GGC_WD(t, d89, v); }
    { unsigned v; bits(&v, sizeof(v), s, 90); GGC_WD(t, d90, v); }
    { unsigned v; bits(&v, sizeof(v), s, 91); GGC_WD(t, d91, v); }
    { Big17 v; bits(&v, sizeof(v), s, 92); GGC_WD(t, d92, v); }
    { float v; bits(&v, sizeof(v), s, 93); GGC_WD(t, d93, v); }
    { float v; bits(&v, sizeof(v), s, 94); GGC_WD(t, d94, v); }
    { unsigned v; bits(&v, sizeof(v), s, 95); GGC_WD(t, d95, v); }
    { unsigned v; bits(&v, sizeof(v), s, 96); GGC_WD(t, d96, v); }
    { Big17 v; bits(&v, sizeof(v), s, 97); GGC_WD(t, d97, v); }
    { short v; bits(&v, sizeof(v), s, 98); GGC_WD(t, d98, v); }
    { short v; bits(&v, sizeof(v), s, 99); GGC_WD(t, d99, v); }
    { short v; bits(&v, sizeof(v), s, 100); GGC_WD(t, d100, v); }
    { short v; bits(&v, sizeof(v), s, 101); GGC_WD(t, d101, v); }
    { Big3 v; bits(&v, sizeof(v), s, 102); GGC_WD(t, d102, v); }
}
static int chkd_T60(void *o, uint64_t s) { T60 t = (T60) o; if (GGC_RD(t, id) != s) return -1;
    { double v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { GGC_voidp v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { double v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { size_t v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { GGC_voidp v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { Tri v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { Tri v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { short v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { size_t v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { long v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { double v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { double v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { int v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { int v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { long v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { size_t v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { Big3 v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { GGC_voidp v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { int v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { int v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { GGC_voidp v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { size_t v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { Tri v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { Tri v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { short v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { GGC_voidp v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { short v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { short v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { short v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { short v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { Tri v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { Tri v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { short v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { GGC_voidp v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { unsigned v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { unsigned v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { Tri v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    { Tri v = GGC_RD(t, d37); if (!same(&v, sizeof(v), s, 37)) return 38; }
    { short v = GGC_RD(t, d38); if (!same(&v, sizeof(v), s, 38)) return 39; }
    { size_t v = GGC_RD(t, d39); if (!same(&v, sizeof(v), s, 39)) return 40; }
    { char v = GGC_RD(t, d40); if (!same(&v, sizeof(v), s, 40)) return 41; }
    { char v = GGC_RD(t, d41); if (!same(&v, sizeof(v), s, 41)) return 42; }
    { char v = GGC_RD(t, d42); if (!same(&v, sizeof(v), s, 42)) return 43; }
    { char v = GGC_RD(t, d43); if (!same(&v, sizeof(v), s, 43)) return 44; }
    { char v = GGC_RD(t, d44); if (!same(&v, sizeof(v), s, 44)) return 45; }
    { char v = GGC_RD(t, d45); if (!same(&v, sizeof(v), s, 45)) return 46; }
    { char v = GGC_RD(t, d46); if (!same(&v, sizeof(v), s, 46)) return 47; }
    { char v = GGC_RD(t, d47); if (!same(&v, sizeof(v), s, 47)) return 48; }
    { Big3 v = GGC_RD(t, d48); if (!same(&v, sizeof(v), s, 48)) return 49; }
    { float v = GGC_RD(t, d49); if (!same(&v, sizeof(v), s, 49)) return 50; }
    { float v = GGC_RD(t, d50); if (!same(&v, sizeof(v), s, 50)) return 51; }
    { double v = GGC_RD(t, d51); if (!same(&v, sizeof(v), s, 51)) return 52; }
    { GGC_voidp v = GGC_RD(t, d52); if (!same(&v, sizeof(v), s, 52)) return 53; }
    { long v = GGC_RD(t, d53); if (!same(&v, sizeof(v), s, 53)) return 54; }
    { Tri v = GGC_RD(t, d54); if (!same(&v, sizeof(v), s, 54)) return 55; }
    { Tri v = GGC_RD(t, d55); if (!same(&v, sizeof(v), s, 55)) return 56; }
    { short v = GGC_RD(t, d56); if (!same(&v, sizeof(v), s, 56)) return 57; }
    { int v = GGC_RD(t, d57); if (!same(&v, sizeof(v), s, 57)) return 58; }
    { int v = GGC_RD(t, d58); if (!same(&v, sizeof(v), s, 58)) return 59; }
    { short v = GGC_RD(t, d59); if (!same(&v, sizeof(v), s, 59)) return 60; }
    { short v = GGC_RD(t, d60); if (!same(&v, sizeof(v), s, 60)) return 61; }
    { short v = GGC_RD(t, d61); if (!same(&v, sizeof(v), s, 61)) return 62; }
    { short v = GGC_RD(t, d62); if (!same(&v, sizeof(v), s, 62)) return 63; }
    { GGC_voidp v = GGC_RD(t, d63); if (!same(&v, sizeof(v), s, 63)) return 64; }
    { float v = GGC_RD(t, d64); if (!same(&v, sizeof(v), s, 64)) return 65; }
    { float v = GGC_RD(t, d65); if (!same(&v, sizeof(v), s, 65)) return 66; }
    { Big3 v = GGC_RD(t, d66); if (!same(&v, sizeof(v), s, 66)) return 67; }
    { size_t v = GGC_RD(t, d67); if (!same(&v, sizeof(v), s, 67)) return 68; }
    { unsigned v = GGC_RD(t, d68); if (!same(&v, sizeof(v), s, 68)) return 69; }
    { unsigned v = GGC_RD(t, d69); if (!same(&v, sizeof(v), s, 69)) return 70; }
    { long v = GGC_RD(t, d70); if (!same(&v, sizeof(v), s, 70)) return 71; }
    { float v = GGC_RD(t, d71); if (!same(&v, sizeof(v), s, 71)) return 72; }
    { float v = GGC_RD(t, d72); if (!same(&v, sizeof(v), s, 72)) return 73; }
    { float v = GGC_RD(t, d73); if (!same(&v, sizeof(v), s, 73)) return 74; }
    { float v = GGC_RD(t, d74); if (!same(&v, sizeof(v), s, 74)) return 75; }
    { long v = GGC_RD(t, d75); if (!same(&v, sizeof(v), s, 75)) return 76; }
    { long v = GGC_RD(t, d76); if (!same(&v, sizeof(v), s, 76)) return 77; }
    { long v = GGC_RD(t, d77); if (!same(&v, sizeof(v), s, 77)) return 78; }
    { float v = GGC_RD(t, d78); if (!same(&v, sizeof(v), s, 78)) return 79; }
    { float v = GGC_RD(t, d79); if (!same(&v, sizeof(v), s, 79)) return 80; }
    { Big3 v = GGC_RD(t, d80); if (!same(&v, sizeof(v), s, 80)) return 81; }
    { Big17 v = GGC_RD(t, d81); if (!same(&v, sizeof(v), s, 81)) return 82; }
    { float v = GGC_RD(t, d82); if (!same(&v, sizeof(v), s, 82)) return 83; }
    { float v = GGC_RD(t, d83); if (!same(&v, sizeof(v), s, 83)) return 84; }
    { double v = GGC_RD(t, d84); if (!same(&v, sizeof(v), s, 84)) return 85; }
    { Big17 v = GGC_RD(t, d85); if (!same(&v, sizeof(v), s, 85)) return 86; }
    { double v = GGC_RD(t, d86); if (!same(&v, sizeof(v), s, 86)) return 87; }
    { float v = GGC_RD(t, d87); if (!same(&v, sizeof(v), s, 87)) return 88; }
    { float v = GGC_RD(t, d88); if (!same(&v, sizeof(v), s, 88)) return 89; }
    { Big17 v = GGC_RD(t, d89); if (!same(&v, sizeof(v), s, 89)) return 90; }
    { unsigned v = GGC_RD(t, d90); if (!same(&v, sizeof(v), s, 90)) return 91; }
    { unsigned v = GGC_RD(t, d91); if (!same(&v, sizeof(v), s, 91)) return 92; }
    { Big17 v = GGC_RD(t, d92); if (!same(&v, sizeof(v), s, 92)) return 93; }
    { float v = GGC_RD(t, d93); if (!same(&v, sizeof(v), s, 93)) return 94; }
    { float v = GGC_RD(t, d94); if (!same(&v, sizeof(v), s, 94)) return 95; }
    { unsigned v = GGC_RD(t, d95); if (!same(&v, sizeof(v), s, 95)) return 96; }
    { unsigned v = GGC_RD(t, d96); if (!same(&v, sizeof(v), s, 96)) return 97; }
    { Big17 v = GGC_RD(t, d97); if (!same(&v, sizeof(v), s, 97)) return 98; }
    { short v = GGC_RD(t, d98); if (!same(&v, sizeof(v), s, 98)) return 99; }
    { short v = GGC_RD(t, d99); if (!same(&v, sizeof(v), s, 99)) return 100; }
    { short v = GGC_RD(t, d100); if (!same(&v, sizeof(v), s, 100)) return 101; }
    { short v = GGC_RD(t, d101); if (!same(&v, sizeof(v), s, 101)) return 102; }
    { Big3 v = GGC_RD(t, d102); if (!same(&v, sizeof(v), s, 102)) return 103; }
    return 0; }
static int zero_T60(void *o) { T60 t = (T60) o; if (GGC_RP(t, p0)) return 1; if (GGC_RP(t, p1)) return 1; if (GGC_RP(t, p2)) return 1; if (GGC_RP(t, p3)) return 1; if (GGC_RP(t, p4)) return 1; if (GGC_RP(t, p5)) return 1; if (GGC_RP(t, p6)) return 1; if (GGC_RP(t, p7)) return 1; if (GGC_RP(t, p8)) return 1; if (GGC_RP(t, p9)) return 1; if (GGC_RP(t, p10)) return 1; if (GGC_RP(t, p11)) return 1; if (GGC_RP(t, p12)) return 1; if (GGC_RP(t, p13)) return 1; if (GGC_RP(t, p14)) return 1; if (GGC_RP(t, p15)) return 1; if (GGC_RP(t, p16)) return 1; if (GGC_RP(t, p17)) return 1; if (GGC_RP(t, p18)) return 1; if (GGC_RP(t, p19)) return 1; if (GGC_RP(t, p20)) return 1; if (GGC_RP(t, p21)) return 1; if (GGC_RP(t, p22)) return 1; if (GGC_RP(t, p23)) return 1; if (GGC_RP(t, p24)) return 1; if (GGC_RP(t, p25)) return 1; if (GGC_RP(t, p26)) return 1; if (GGC_RP(t, p27)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T60[] = { offsetof(struct T60__ggggc_struct, p0__ptr) / sizeof(size_t), offsetof(struct T60__ggggc_struct, p1__ptr) / sizeof(size_t), offsetof(struct T60__ggggc_struct, p2__ptr) / sizeof(size_t), offsetof(struct T60__ggggc_struct, p3__ptr) / sizeof(size_t), offsetof(struct T60__ggggc_struct, p4__ptr) / sizeof(size_t), offsetof(struct T60__ggggc_struct, p5__ptr) / sizeof(size_t), offsetof(struct T60__ggggc_struct, p6__ptr) / sizeof(size_t), offsetof(struct T60__ggggc_struct, p7__ptr) / sizeof(size_t), offsetof(struct T60__ggggc_struct, p8__ptr) / sizeof(size_t), offsetof(struct T60__ggggc_struct, p9__ptr) / sizeof(size_t), offsetof(struct T60__ggggc_struct, p10__ptr) / sizeof(size_t), offsetof(struct T60__ggggc_struct, p11__ptr) / sizeof(size_t), offsetof(struct T60__ggggc_struct, p12__ptr) / sizeof(size_t), offsetof(struct T60__ggggc_struct, p13__ptr) / sizeof(size_t), offsetof(struct T60__ggggc_struct, p14__ptr) / sizeof(size_t), offsetof(struct T60__ggggc_struct, p15__ptr) / sizeof(size_t), offsetof(struct T60__ggggc_struct, p16__ptr) / sizeof(size_t), offsetof(struct T60__ggggc_struct, p17__ptr) / sizeof(size_t), offsetof(struct T60__ggggc_struct, p18__ptr) / sizeof(size_t), offsetof(struct T60__ggggc_struct, p19__ptr) / sizeof(size_t), offsetof(struct T60__ggggc_struct, p20__ptr) / sizeof(size_t), offsetof(struct T60__ggggc_struct, p21__ptr) / sizeof(size_t), offsetof(struct T60__ggggc_struct, p22__ptr) / sizeof(size_t), offsetof(struct T60__ggggc_struct, p23__ptr) / sizeof(size_t), offsetof(struct T60__ggggc_struct, p24__ptr) / sizeof(size_t), offsetof(struct T60__ggggc_struct, p25__ptr) / sizeof(size_t), offsetof(struct T60__ggggc_struct, p26__ptr) / sizeof(size_t), offsetof(struct T60__ggggc_struct, p27__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T61)
    GGC_MDATA(size_t, id);
    GGC_MDATA(Tri, d0);
    GGC_MDATA(Tri, d1);
    GGC_MDATA(short, d2);
    GGC_MDATA(float, d3);
    GGC_MDATA(float, d4);
    GGC_MDATA(long, d5);
    GGC_MDATA(GGC_voidp, d6);
    GGC_MDATA(size_t, d7);
    GGC_MDATA(Big17, d8);
    GGC_MDATA(long, d9);
    GGC_MDATA(double, d10);
    GGC_MDATA(GGC_voidp, d11);
    GGC_MDATA(double, d12);
    GGC_MDATA(char, d13);
    GGC_MDATA(char, d14);
    GGC_MDATA(char, d15);
    GGC_MDATA(char, d16);
    GGC_MDATA(char, d17);
    GGC_MDATA(char, d18);
    GGC_MDATA(char, d19);
    GGC_MDATA(char, d20);
    GGC_MDATA(Big17, d21);
    GGC_MDATA(GGC_voidp, d22);
    GGC_MDATA(size_t, d23);
    GGC_MDATA(size_t, d24);
    GGC_MDATA(size_t, d25);
    GGC_MDATA(unsigned, d26);
    GGC_MDATA(unsigned, d27);
    GGC_MDATA(size_t, d28);
    GGC_MDATA(float, d29);
    GGC_MDATA(float, d30);
    GGC_MDATA(Tri, d31);
    GGC_MDATA(Tri, d32);
    GGC_MDATA(short, d33);
    GGC_MDATA(double, d34);
    GGC_MDATA(char, d35);
    GGC_MDATA(char, d36);
    GGC_MDATA(char, d37);
    GGC_MDATA(char, d38);
    GGC_MDATA(char, d39);
    GGC_MDATA(char, d40);
    GGC_MDATA(char, d41);
    GGC_MDATA(char, d42);
    GGC_MDATA(float, d43);
    GGC_MDATA(float, d44);
    GGC_MDATA(long, d45);
    GGC_MDATA(size_t, d46);
    GGC_MDATA(Tri, d47);
    GGC_MDATA(Tri, d48);
    GGC_MDATA(short, d49);
    GGC_MDATA(GGC_voidp, d50);
    GGC_MDATA(Tri, d51);
    GGC_MDATA(Tri, d52);
    GGC_MDATA(short, d53);
    GGC_MPTR(Leaf, p0);
GGC_END_TYPE(T61,
    GGC_PTR(T61, p0)
    )
static void *new_T61(void) { return GGC_NEW(T61); }
static void setp_T61(void *o, int k, Leaf v) { T61 t = (T61) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T61(void *o, int k) { T61 t = (T61) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    default: return NULL; } }
static void setd_T61(void *o, uint64_t s) { T61 t = (T61) o; { size_t v = s; GGC_WD(t, id, v); }
    { Tri v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { Tri v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { short v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { float v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { float v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { long v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { size_t v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { Big17 v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { long v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { double v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { double v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { char v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { char v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { char v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { char v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { char v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { char v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { char v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { char v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { Big17 v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { size_t v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { size_t v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { size_t v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { unsigned v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { unsigned v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { size_t v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { float v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { float v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { Tri v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { Tri v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { short v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { double v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { char v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { char v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
    { char v; bits(&v, sizeof(v), s, 37); GGC_WD(t, d37, v); }
    { char v; bits(&v, sizeof(v), s, 38); GGC_WD(t, d38, v); }
    { char v; bits(&v, sizeof(v), s, 39); GGC_WD(t, d39, v); }
    { char v; bits(&v, sizeof(v), s, 40); GGC_WD(t, d40, v); }
    { char v; bits(&v, sizeof(v), s, 41); GGC_WD(t, d41, v); }
    { char v; bits(&v, sizeof(v), s, 42); GGC_WD(t, d42, v); }
    { float v; bits(&v, sizeof(v), s, 43); GGC_WD(t, d43, v); }
    { float v; bits(&v, sizeof(v), s, 44); GGC_WD(t, d44, v); }
    { long v; bits(&v, sizeof(v), s, 45); GGC_WD(t, d45, v); }
    { size_t v; bits(&v, sizeof(v), s, 46); GGC_WD(t, d46, v); }
    { Tri v; bits(&v, sizeof(v), s, 47); GGC_WD(t, d47, v); }
    { Tri v; bits(&v, sizeof(v), s, 48); GGC_WD(t, d48, v); }
    { short v; bits(&v, sizeof(v), s, 49); GGC_WD(t, d49, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 50); GGC_WD(t, d50, v); }
    { Tri v; bits(&v, sizeof(v), s, 51); GGC_WD(t, d51, v); }
    { Tri v; bits(&v, sizeof(v), s, 52); GGC_WD(t, d52, v); }
    { short v; bits(&v, sizeof(v), s, 53); GGC_WD(t, d53, v); }
}
static int chkd_T61(void *o, uint64_t s) { T61 t = (T61) o; if (GGC_RD(t, id) != s) return -1;
    { Tri v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { Tri v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { short v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { float v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { float v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { long v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { GGC_voidp v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { size_t v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { Big17 v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { long v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { double v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { GGC_voidp v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { double v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { char v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { char v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { char v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { char v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { char v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { char v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { char v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { char v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { Big17 v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { GGC_voidp v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { size_t v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { size_t v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { size_t v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { unsigned v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { unsigned v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { size_t v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { float v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { float v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { Tri v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { Tri v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { short v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { double v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { char v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { char v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    { char v = GGC_RD(t, d37); if (!same(&v, sizeof(v), s, 37)) return 38; }
    { char v = GGC_RD(t, d38); if (!same(&v, sizeof(v), s, 38)) return 39; }
    { char v = GGC_RD(t, d39); if (!same(&v, sizeof(v), s, 39)) return 40; }
    { char v = GGC_RD(t, d40); if (!same(&v, sizeof(v), s, 40)) return 41; }
    { char v = GGC_RD(t, d41); if (!same(&v, sizeof(v), s, 41)) return 42; }
    { char v = GGC_RD(t, d42); if (!same(&v, sizeof(v), s, 42)) return 43; }
    { float v = GGC_RD(t, d43); if (!same(&v, sizeof(v), s, 43)) return 44; }
    { float v = GGC_RD(t, d44); if (!same(&v, sizeof(v), s, 44)) return 45; }
    { long v = GGC_RD(t, d45); if (!same(&v, sizeof(v), s, 45)) return 46; }
    { size_t v = GGC_RD(t, d46); if (!same(&v, sizeof(v), s, 46)) return 47; }
    { Tri v = GGC_RD(t, d47); if (!same(&v, sizeof(v), s, 47)) return 48; }
    { Tri v = GGC_RD(t, d48); if (!same(&v, sizeof(v), s, 48)) return 49; }
    { short v = GGC_RD(t, d49); if (!same(&v, sizeof(v), s, 49)) return 50; }
    { GGC_voidp v = GGC_RD(t, d50); if (!same(&v, sizeof(v), s, 50)) return 51; }
    { Tri v = GGC_RD(t, d51); if (!same(&v, sizeof(v), s, 51)) return 52; }
    { Tri v = GGC_RD(t, d52); if (!same(&v, sizeof(v), s, 52)) return 53; }
    { short v = GGC_RD(t, d53); if (!same(&v, sizeof(v), s, 53)) return 54; }
    return 0; }
static int zero_T61(void *o) { T61 t = (T61) o; if (GGC_RP(t, p0)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T61[] = { offsetof(struct T61__ggggc_struct, p0__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T62)
    GGC_MDATA(size_t, id);
    GGC_MDATA(long, d0);
    GGC_MDATA(char, d1);
    GGC_MDATA(char, d2);
    GGC_MDATA(char, d3);
    GGC_MDATA(char, d4);
    GGC_MDATA(char, d5);
    GGC_MDATA(char, d6);
    GGC_MDATA(char, d7);
    GGC_MDATA(char, d8);
    GGC_MDATA(size_t, d9);
    GGC_MDATA(long, d10);
    GGC_MDATA(double, d11);
    GGC_MDATA(GGC_voidp, d12);
    GGC_MDATA(size_t, d13);
    GGC_MDATA(GGC_voidp, d14);
    GGC_MDATA(short, d15);
    GGC_MDATA(short, d16);
    GGC_MDATA(short, d17);
    GGC_MDATA(short, d18);
    GGC_MDATA(float, d19);
    GGC_MDATA(float, d20);
    GGC_MDATA(char, d21);
    GGC_MDATA(char, d22);
    GGC_MDATA(char, d23);
    GGC_MDATA(char, d24);
    GGC_MDATA(char, d25);
    GGC_MDATA(char, d26);
    GGC_MDATA(char, d27);
    GGC_MDATA(char, d28);
    GGC_MDATA(float, d29);
    GGC_MDATA(float, d30);
    GGC_MDATA(GGC_voidp, d31);
    GGC_MDATA(Big17, d32);
    GGC_MDATA(Big17, d33);
    GGC_MDATA(long, d34);
    GGC_MDATA(float, d35);
    GGC_MDATA(float, d36);
    GGC_MDATA(short, d37);
    GGC_MDATA(short, d38);
    GGC_MDATA(short, d39);
    GGC_MDATA(short, d40);
    GGC_MDATA(long, d41);
    GGC_MDATA(char, d42);
    GGC_MDATA(char, d43);
    GGC_MDATA(char, d44);
    GGC_MDATA(char, d45);
    GGC_MDATA(char, d46);
    GGC_MDATA(char, d47);
    GGC_MDATA(char, d48);
    GGC_MDATA(char, d49);
    GGC_MDATA(double, d50);
    GGC_MDATA(double, d51);
    GGC_MDATA(double, d52);
    GGC_MDATA(GGC_voidp, d53);
    GGC_MDATA(Big3, d54);
    GGC_MDATA(short, d55);
    GGC_MDATA(short, d56);
    GGC_MDATA(short, d57);
    GGC_MDATA(short, d58);
    GGC_MPTR(Leaf, p0);
    GGC_MDATA(short, d59);
    GGC_MDATA(short, d60);
    GGC_MDATA(short, d61);
    GGC_MDATA(short, d62);
    GGC_MDATA(double, d63);
    GGC_MDATA(long, d64);
    GGC_MDATA(Big3, d65);
    GGC_MDATA(float, d66);
    GGC_MDATA(float, d67);
    GGC_MDATA(long, d68);
    GGC_MDATA(GGC_voidp, d69);
GGC_END_TYPE(T62,
    GGC_PTR(T62, p0)
    )
static void *new_T62(void) { return GGC_NEW(T62); }
static void setp_T62(void *o, int k, Leaf v) { T62 t = (T62) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T62(void *o, int k) { T62 t = (T62) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    default: return NULL; } }
static void setd_T62(void *o, uint64_t s) { T62 t = (T62) o; { size_t v = s; GGC_WD(t, id, v); }
    { long v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { char v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { char v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { char v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { char v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { char v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { char v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { char v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { char v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { size_t v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { long v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { double v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { size_t v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { short v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { short v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { short v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { short v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { float v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { float v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { char v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { char v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { char v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { char v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { char v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { char v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { char v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { char v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { float v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { float v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { Big17 v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { Big17 v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { long v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { float v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { float v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
    { short v; bits(&v, sizeof(v), s, 37); GGC_WD(t, d37, v); }
    { short v; bits(&v, sizeof(v), s, 38); GGC_WD(t, d38, v); }
    { short v; bits(&v, sizeof(v), s, 39); GGC_WD(t, d39, v); }
    { short v; bits(&v, sizeof(v), s, 40); GGC_WD(t, d40, v); }
    { long v; bits(&v, sizeof(v), s, 41); GGC_WD(t, d41, v); }
    { char v; bits(&v, sizeof(v), s, 42); GGC_WD(t, d42, v); }
    { char v; bits(&v, sizeof(v), s, 43); GGC_WD(t, d43, v); }
    { char v; bits(&v, sizeof(v), s, 44); GGC_WD(t, d44, v); }
    { char v; bits(&v, sizeof(v), s, 45); GGC_WD(t, d45, v); }
    { char v; bits(&v, sizeof(v), s, 46); GGC_WD(t, d46, v); }
    { char v; bits(&v, sizeof(v), s, 47); GGC_WD(t, d47, v); }
    { char v; bits(&v, sizeof(v), s, 48); GGC_WD(t, d48, v); }
    { char v; bits(&v, sizeof(v), s, 49); GGC_WD(t, d49, v); }
    { double v; bits(&v, sizeof(v), s, 50); GGC_WD(t, d50, v); }
    { double v; bits(&v, sizeof(v), s, 51); GGC_WD(t, d51, v); }
    { double v; bits(&v, sizeof(v), s, 52); GGC_WD(t, d52, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 53); GGC_WD(t, d53, v); }
    { Big3 v; bits(&v, sizeof(v), s, 54); GGC_WD(t, d54, v); }
    { short v; bits(&v, sizeof(v), s, 55); GGC_WD(t, d55, v); }
    { short v; bits(&v, sizeof(v), s, 56); GGC_WD(t, d56, v); }
    { short v; bits(&v, sizeof(v), s, 57); GGC_WD(t, d57, v); }
    { short v; bits(&v, sizeof(v), s, 58); GGC_WD(t, d58, v); }
    { short v; bits(&v, sizeof(v), s, 59); GGC_WD(t, d59, v); }
    { short v; bits(&v, sizeof(v), s, 60); GGC_WD(t, d60, v); }
    { short v; bits(&v, sizeof(v), s, 61); GGC_WD(t, d61, v); }
    { short v; bits(&v, sizeof(v), s, 62); GGC_WD(t, d62, v); }
    { double v; bits(&v, sizeof(v), s, 63); GGC_WD(t, d63, v); }
    { long v; bits(&v, sizeof(v), s, 64); GGC_WD(t, d64, v); }
    { Big3 v; bits(&v, sizeof(v), s, 65); GGC_WD(t, d65, v); }
    { float v; bits(&v, sizeof(v), s, 66); GGC_WD(t, d66, v); }
    { float v; bits(&v, sizeof(v), s, 67); GGC_WD(t, d67, v); }
    { long v; bits(&v, sizeof(v), s, 68); GGC_WD(t, d68, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 69); GGC_WD(t, d69, v); }
}
static int chkd_T62(void *o, uint64_t s) { T62 t = (T62) o; if (GGC_RD(t, id) != s) return -1;
    { long v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { char v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { char v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { char v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { char v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { char v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { char v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { char v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { char v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { size_t v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { long v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { double v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { GGC_voidp v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { size_t v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { GGC_voidp v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { short v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { short v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { short v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { short v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { float v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { float v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { char v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { char v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { char v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { char v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { char v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { char v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { char v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { char v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { float v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { float v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { GGC_voidp v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { Big17 v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { Big17 v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { long v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { float v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { float v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    { short v = GGC_RD(t, d37); if (!same(&v, sizeof(v), s, 37)) return 38; }
    { short v = GGC_RD(t, d38); if (!same(&v, sizeof(v), s, 38)) return 39; }
    { short v = GGC_RD(t, d39); if (!same(&v, sizeof(v), s, 39)) return 40; }
    { short v = GGC_RD(t, d40); if (!same(&v, sizeof(v), s, 40)) return 41; }
    { long v = GGC_RD(t, d41); if (!same(&v, sizeof(v), s, 41)) return 42; }
    { char v = GGC_RD(t, d42); if (!same(&v, sizeof(v), s, 42)) return 43; }
    { char v = GGC_RD(t, d43); if (!same(&v, sizeof(v), s, 43)) return 44; }
    { char v = GGC_RD(t, d44); if (!same(&v, sizeof(v), s, 44)) return 45; }
    { char v = GGC_RD(t, d45); if (!same(&v, sizeof(v), s, 45)) return 46; }
    { char v = GGC_RD(t, d46); if (!same(&v, sizeof(v), s, 46)) return 47; }
    { char v = GGC_RD(t, d47); if (!same(&v, sizeof(v), s, 47)) return 48; }
    { char v = GGC_RD(t, d48); if (!same(&v, sizeof(v), s, 48)) return 49; }
    { char v = GGC_RD(t, d49); if (!same(&v, sizeof(v), s, 49)) return 50; }
    { double v = GGC_RD(t, d50); if (!same(&v, sizeof(v), s, 50)) return 51; }
    { double v = GGC_RD(t, d51); if (!same(&v, sizeof(v), s, 51)) return 52; }
    { double v = GGC_RD(t, d52); if (!same(&v, sizeof(v), s, 52)) return 53; }
    { GGC_voidp v = GGC_RD(t, d53); if (!same(&v, sizeof(v), s, 53)) return 54; }
    { Big3 v = GGC_RD(t, d54); if (!same(&v, sizeof(v), s, 54)) return 55; }
    { short v = GGC_RD(t, d55); if (!same(&v, sizeof(v), s, 55)) return 56; }
    { short v = GGC_RD(t, d56); if (!same(&v, sizeof(v), s, 56)) return 57; }
    { short v = GGC_RD(t, d57); if (!same(&v, sizeof(v), s, 57)) return 58; }
    { short v = GGC_RD(t, d58); if (!same(&v, sizeof(v), s, 58)) return 59; }
    { short v = GGC_RD(t, d59); if (!same(&v, sizeof(v), s, 59)) return 60; }
    { short v = GGC_RD(t, d60); if (!same(&v, sizeof(v), s, 60)) return 61; }
    { short v = GGC_RD(t, d61); if (!same(&v, sizeof(v), s, 61)) return 62; }
    { short v = GGC_RD(t, d62); if (!same(&v, sizeof(v), s, 62)) return 63; }
    { double v = GGC_RD(t, d63); if (!same(&v, sizeof(v), s, 63)) return 64; }
    { long v = GGC_RD(t, d64); if (!same(&v, sizeof(v), s, 64)) return 65; }
    { Big3 v = GGC_RD(t, d65); if (!same(&v, sizeof(v), s, 65)) return 66; }
    { float v = GGC_RD(t, d66); if (!same(&v, sizeof(v), s, 66)) return 67; }
    { float v = GGC_RD(t, d67); if (!same(&v, sizeof(v), s, 67)) return 68; }
    { long v = GGC_RD(t, d68); if (!same(&v, sizeof(v), s, 68)) return 69; }
    { GGC_voidp v = GGC_RD(t, d69); if (!same(&v, sizeof(v), s, 69)) return 70; }
    return 0; }
static int zero_T62(void *o) { T62 t = (T62) o; if (GGC_RP(t, p0)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T62[] = { offsetof(struct T62__ggggc_struct, p0__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T63)
    GGC_MDATA(size_t, id);
    GGC_MDATA(GGC_voidp, d0);
    GGC_MDATA(Big3, d1);
    GGC_MDATA(int, d2);
    GGC_MDATA(int, d3);
    GGC_MDATA(float, d4);
    GGC_MDATA(float, d5);
    GGC_MDATA(double, d6);
    GGC_MDATA(int, d7);
    GGC_MDATA(int, d8);
    GGC_MDATA(char, d9);
    GGC_MDATA(char, d10);
    GGC_MDATA(char, d11);
    GGC_MDATA(char, d12);
    GGC_MDATA(char, d13);
    GGC_MDATA(char, d14);
    GGC_MDATA(char, d15);
    GGC_MDATA(char, d16);
    GGC_MDATA(GGC_voidp, d17);
    GGC_MDATA(double, d18);
    GGC_MDATA(Tri, d19);
    GGC_MDATA(Tri, d20);
    GGC_MDATA(short, d21);
    GGC_MDATA(unsigned, d22);
    GGC_MDATA(unsigned, d23);
    GGC_MDATA(char, d24);
    GGC_MDATA(char, d25);
    GGC_MDATA(char, d26);
    GGC_MDATA(char, d27);
    GGC_MDATA(char, d28);
    GGC_MDATA(char, d29);
    GGC_MDATA(char, d30);
    GGC_MDATA(char, d31);
    GGC_MDATA(int, d32);
    GGC_MDATA(int, d33);
    GGC_MDATA(size_t, d34);
    GGC_MDATA(GGC_voidp, d35);
    GGC_MDATA(int, d36);
    GGC_MDATA(int, d37);
    GGC_MDATA(GGC_voidp, d38);
    GGC_MDATA(long, d39);
    GGC_MDATA(double, d40);
    GGC_MDATA(char, d41);
    GGC_MDATA(char, d42);
    GGC_MDATA(char, d43);
    GGC_MDATA(char, d44);
    GGC_MDATA(char, d45);
    GGC_MDATA(char, d46);
    GGC_MDATA(char, d47);
    GGC_MDATA(char, d48);
    GGC_MDATA(GGC_voidp, d49);
    GGC_MDATA(unsigned, d50);
    GGC_MDATA(unsigned, d51);
    GGC_MDATA(Big17, d52);
    GGC_MDATA(char, d53);
    GGC_MDATA(char, d54);
    GGC_MDATA(char, d55);
    GGC_MDATA(char, d56);
    GGC_MDATA(char, d57);
    GGC_MDATA(char, d58);
    GGC_MDATA(char, d59);
    GGC_MDATA(char, d60);
    GGC_MDATA(Tri, d61);
    GGC_MDATA(Tri, d62);
    GGC_MDATA(short, d63);
    GGC_MDATA(long, d64);
    GGC_MDATA(long, d65);
    GGC_MDATA(float, d66);
    GGC_MDATA(float, d67);
    GGC_MDATA(GGC_voidp, d68);
    GGC_MDATA(size_t, d69);
    GGC_MDATA(char, d70);
    GGC_MDATA(char, d71);
    GGC_MDATA(char, d72);
    GGC_MDATA(char, d73);
    GGC_MDATA(char, d74);
    GGC_MDATA(char, d75);
    GGC_MDATA(char, d76);
    GGC_MDATA(char, d77);
    GGC_MDATA(long, d78);
    GGC_MDATA(Tri, d79);
    GGC_MDATA(Tri, d80);
    GGC_MDATA(short, d81);
    GGC_MDATA(Tri, d82);
    GGC_MDATA(Tri, d83);
    GGC_MDATA(short, d84);
    GGC_MDATA(long, d85);
    GGC_MDATA(long, d86);
    GGC_MDATA(Tri, d87);
    GGC_MDATA(Tri, d88);
    GGC_MDATA(short, d89);
    GGC_MDATA(Tri, d90);
    GGC_MDATA(Tri, d91);
    GGC_MDATA(short, d92);
    GGC_MDATA(size_t, d93);
    GGC_MDATA(char, d94);
    GGC_MDATA(char, d95);
    GGC_MDATA(char, d96);
    GGC_MDATA(char, d97);
    GGC_MDATA(char, d98);
    GGC_MDATA(char, d99);
    GGC_MDATA(char, d100);
    GGC_MDATA(char, d101);
    GGC_MDATA(int, d102);
    GGC_MDATA(int, d103);
    GGC_MDATA(long, d104);
    GGC_MPTR(Leaf, p0);
    GGC_MDATA(int, d105);
    GGC_MDATA(int, d106);
    GGC_MDATA(Tri, d107);
    GGC_MDATA(Tri, d108);
    GGC_MDATA(short, d109);
    GGC_MDATA(long, d110);
    GGC_MDATA(Big3, d111);
    GGC_MDATA(GGC_voidp, d112);
    GGC_MDATA(double, d113);
    GGC_MDATA(double, d114);
    GGC_MDATA(Tri, d115);
    GGC_MDATA(Tri, d116);
    GGC_MDATA(short, d117);
    GGC_MDATA(Big3, d118);
    GGC_MDATA(GGC_voidp, d119);
    GGC_MDATA(Big17, d120);
    GGC_MDATA(GGC_voidp, d121);
    GGC_MDATA(Big17, d122);
    GGC_MDATA(long, d123);
    GGC_MDATA(GGC_voidp, d124);
    GGC_MDATA(unsigned, d125);
    GGC_MDATA(unsigned, d126);
    GGC_MDATA(float, d127);
    GGC_MDATA(float, d128);
    GGC_MDATA(Big3, d129);
    GGC_MDATA(short, d130);
    GGC_MDATA(short, d131);
    GGC_MDATA(short, d132);
    GGC_MDATA(short, d133);
    GGC_MDATA(double, d134);
    GGC_MDATA(double, d135);
    GGC_MDATA(GGC_voidp, d136);
    GGC_MDATA(GGC_voidp, d137);
    GGC_MDATA(unsigned, d138);
    GGC_MDATA(unsigned, d139);
    GGC_MDATA(GGC_voidp, d140);
    GGC_MDATA(long, d141);
    GGC_MDATA(int, d142);
    GGC_MDATA(int, d143);
    GGC_MDATA(GGC_voidp, d144);
    GGC_MDATA(Big3, d145);
GGC_END_TYPE(T63,
    GGC_PTR(T63, p0)
    )
static void *new_T63(void) { return GGC_NEW(T63); }
static void setp_T63(void *o, int k, Leaf v) { T63 t = (T63) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T63(void *o, int k) { T63 t = (T63) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    default: return NULL; } }
static void setd_T63(void *o, uint64_t s) { T63 t = (T63) o; { size_t v = s; GGC_WD(t, id, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { Big3 v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { int v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { int v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { float v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { float v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { double v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { int v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { int v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { char v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { char v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { char v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { char v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { char v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { char v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { char v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { char v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { double v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { Tri v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { Tri v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { short v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { unsigned v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { unsigned v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { char v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { char v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { char v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { char v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { char v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { char v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { char v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { char v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { int v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { int v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { size_t v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { int v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
    { int v; bits(&v, sizeof(v), s, 37); GGC_WD(t, d37, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 38); GGC_WD(t, d38, v); }
    { long v; bits(&v, sizeof(v), s, 39); GGC_WD(t, d39, v); }
    { double v; bits(&v, sizeof(v), s, 40); GGC_WD(t, d40, v); }
    { char v; bits(&v, sizeof(v), s, 41); GGC_WD(t, d41, v); }
    { char v; bits(&v, sizeof(v), s, 42); GGC_WD(t, d42, v); }
    { char v; bits(&v, sizeof(v), s, 43); GGC_WD(t, d43, v); }
    { char v; bits(&v, sizeof(v), s, 44); GGC_WD(t, d44, v); }
    { char v; bits(&v, sizeof(v), s, 45); GGC_WD(t, d45, v); }
    { char v; bits(&v, sizeof(v), s, 46); GGC_WD(t, d46, v); }
    { char v; bits(&v, sizeof(v), s, 47); GGC_WD(t, d47, v); }
    { char v; bits(&v, sizeof(v), s, 48); GGC_WD(t, d48, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 49); GGC_WD(t, d49, v); }
    { unsigned v; bits(&v, sizeof(v), s, 50); GGC_WD(t, d50, v); }
    { unsigned v; bits(&v, sizeof(v), s, 51); GGC_WD(t, d51, v); }
    { Big17 v; bits(&v, sizeof(v), s, 52); GGC_WD(t, d52, v); }
    { char v; bits(&v, sizeof(v), s, 53); GGC_WD(t, d53, v); }
    { char v; bits(&v, sizeof(v), s, 54); GGC_WD(t, d54, v); }
    { char v; bits(&v, sizeof(v), s, 55); GGC_WD(t, d55, v); }
    { char v; bits(&v, sizeof(v), s, 56); GGC_WD(t, d56, v); }
    { char v; bits(&v, sizeof(v), s, 57); GGC_WD(t, d57, v); }
    { char v; bits(&v, sizeof(v), s, 58); GGC_WD(t, d58, v); }
    { char v; bits(&v, sizeof(v), s, 59); GGC_WD(t, d59, v); }
    { char v; bits(&v, sizeof(v), s, 60); GGC_WD(t, d60, v); }
    { Tri v; bits(&v, sizeof(v), s, 61); GGC_WD(t, d61, v); }
    { Tri v; bits(&v, sizeof(v), s, 62); GGC_WD(t, d62, v); }
    { short v; bits(&v, sizeof(v), s, 63); GGC_WD(t, d63, v); }
    { long v; bits(&v, sizeof(v), s, 64); GGC_WD(t, d64, v); }
    { long v; bits(&v, sizeof(v), s, 65); GGC_WD(t, d65, v); }
    { float v; bits(&v, sizeof(v), s, 66); GGC_WD(t, d66, v); }
    { float v; bits(&v, sizeof(v), s, 67); GGC_WD(t, d67, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 68); GGC_WD(t, d68, v); }
    { size_t v; bits(&v, sizeof(v), s, 69); GGC_WD(t, d69, v); }
    { char v; bits(&v, sizeof(v), s, 70); GGC_WD(t, d70, v); }
    { char v; bits(&v, sizeof(v), s, 71); GGC_WD(t, d71, v); }
    { char v; bits(&v, sizeof(v), s, 72); GGC_WD(t, d72, v); }
    { char v; bits(&v, sizeof(v), s, 73); GGC_WD(t, d73, v); }
    { char v; bits(&v, sizeof(v), s, 74); GGC_WD(t, d74, v); }
    { char v; bits(&v, sizeof(v), s, 75); GGC_WD(t, d75, v); }
    { char v; bits(&v, sizeof(v), s, 76); GGC_WD(t, d76, v); }
    { char v; bits(&v, sizeof(v), s, 77); GGC_WD(t, d77, v); }
    { long v; bits(&v, sizeof(v), s, 78); GGC_WD(t, d78, v); }
    { Tri v; bits(&v, sizeof(v), s, 79); GGC_WD(t, d79, v); }
    { Tri v; bits(&v, sizeof(v), s, 80); GGC_WD(t, d80, v); }
    { short v; bits(&v, sizeof(v), s, 81); GGC_WD(t, d81, v); }
    { Tri v; bits(&v, sizeof(v), s, 82); GGC_WD(t, d82, v); }
    { Tri v; bits(&v, sizeof(v), s, 83); GGC_WD(t, d83, v); }
    { short v; bits(&v, sizeof(v), s, 84); GGC_WD(t, d84, v); }
    { long v; bits(&v, sizeof(v), s, 85); GGC_WD(t, d85, v); }
    { long v; bits(&v, sizeof(v), s, 86); GGC_WD(t, d86, v); }
    { Tri v; bits(&v, sizeof(v), s, 87); GGC_WD(t, d87, v); }
    { Tri v; bits(&v, sizeof(v), s, 88); GGC_WD(t, d88, v); }
    { short v; bits(&v, sizeof(v), s, 89); GGC_WD(t, d89, v); }
    { Tri v; bits(&v, sizeof(v), s, 90); GGC_WD(t, d90, v); }
    { Tri v; bits(&v, sizeof(v), s, 91); GGC_WD(t, d91, v); }
    { short v; bits(&v, sizeof(v), s, 92); GGC_WD(t, d92, v); }
    { size_t v; bits(&v, sizeof(v), s, 93); GGC_WD(t, d93, v); }
    { char v; bits(&v, sizeof(v), s, 94); GGC_WD(t, d94, v); }
    { char v; bits(&v, sizeof(v), s, 95); GGC_WD(t, d95, v); }
    { char v; bits(&v, sizeof(v), s, 96); GGC_WD(t, d96, v); }
    { char v; bits(&v, sizeof(v), s, 97); GGC_WD(t, d97, v); }
    { char v; bits(&v, sizeof(v), s, 98); GGC_WD(t, d98, v); }
    { char v; bits(&v, sizeof(v), s, 99); GGC_WD(t, d99, v); }
    { char v; bits(&v, sizeof(v), s, 100); GGC_WD(t, d100, v); }
    { char v; bits(&v, sizeof(v), s, 101); GGC_WD(t, d101, v); }
    { int v; bits(&v, sizeof(v), s, 102); GGC_WD(t, d102, v); }
    { int v; bits(&v, sizeof(v), s, 103); GGC_WD(t, d103, v); }
    { long v; bits(&v, sizeof(v), s, 104); GGC_WD(t, d104, v); }
    { int v; bits(&v, sizeof(v), s, 105); GGC_WD(t, d105, v); }
    { int v; bits(&v, sizeof(v), s, 106); GGC_WD(t, d106, v); }
    { Tri v; bits(&v, sizeof(v), s, 107); GGC_WD(t, d107, v); }
    { Tri v; bits(&v, sizeof(v), s, 108); GGC_WD(t, d108, v); }
    { short v; bits(&v, sizeof(v), s, 109); GGC_WD(t, d109, v); }
    { long v; bits(&v, sizeof(v), s, 110); GGC_WD(t, d110, v); }
    { Big3 v; bits(&v, sizeof(v), s, 111); GGC_WD(t, d111, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 112); GGC_WD(t, d112, v); }
    { double v; bits(&v, sizeof(v), s, 113); GGC_WD(t, d113, v); }
    { double v; bits(&v, sizeof(v), s, 114); GGC_WD(t, d114, v); }
    { Tri v; bits(&v, sizeof(v), s, 115); GGC_WD(t, d115, v); }
    { Tri v; bits(&v, sizeof(v), s, 116); GGC_WD(t, d116, v); }
    { short v; bits(&v, sizeof(v), s, 117); GGC_WD(t, d117, v); }
    { Big3 v; bits(&v, sizeof(v), s, 118); GGC_WD(t, d118, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 119); GGC_WD(t, d119, v); }
    { Big17 v; bits(&v, sizeof(v), s, 120); GGC_WD(t, d120, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 121); GGC_WD(t, d121, v); }
    { Big17 v; bits(&v, sizeof(v), s, 122); GGC_WD(t, d122, v); }
    { long v; bits(&v, sizeof(v), s, 123); GGC_WD(t, d123, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 124); GGC_WD(t, d124, v); }
    { unsigned v; bits(&v, sizeof(v), s, 125); GGC_WD(t, d125, v); }
    { unsigned v; bits(&v, sizeof(v), s, 126); GGC_WD(t, d126, v); }
    { float v; bits(&v, sizeof(v), s, 127); GGC_WD(t, d127, v); }
    { float v; bits(&v, sizeof(v), s, 128); GGC_WD(t, d128, v); }
    { Big3 v; bits(&v, sizeof(v), s, 129); GGC_WD(t, d129, v); }
    { short v; bits(&v, sizeof(v), s, 130); GGC_WD(t, d130, v); }
    { short v; bits(&v, sizeof(v), s, 131); GGC_WD(t, d131, v); }
    { short v; bits(&v, sizeof(v), s, 132); GGC_WD(t, d132, v); }
    { short v; bits(&v, sizeof(v), s, 133); GGC_WD(t, d133, v); }
    { double v; bits(&v, sizeof(v), s, 134); GGC_WD(t, d134, v); }
    { double v; bits(&v, sizeof(v), s, 135); GGC_WD(t, d135, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 136); GGC_WD(t, d136, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 137); GGC_WD(t, d137, v); }
    { unsigned v; bits(&v, sizeof(v), s, 138); GGC_WD(t, d138, v); }
    { unsigned v; bits(&v, sizeof(v), s, 139); GGC_WD(t, d139, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 140); GGC_WD(t, d140, v); }
    { long v; bits(&v, sizeof(v), s, 141); GGC_WD(t, d141, v); }
    { int v; bits(&v, sizeof(v), s, 142); GGC_WD(t, d142, v); }
    { int v; bits(&v, sizeof(v), s, 143); GGC_WD(t, d143, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 144); GGC_WD(t, d144, v); }
    { Big3 v; bits(&v, sizeof(v), s, 145); GGC_WD(t, d145, v); }
}
static int chkd_T63(void *o, uint64_t s) { T63 t = (T63) o; if (GGC_RD(t, id) != s) return -1;
    { GGC_voidp v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { Big3 v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { int v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { int v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { float v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { float v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { double v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { int v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { int v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { char v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { char v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { char v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { char v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { char v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { char v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { char v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { char v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { GGC_voidp v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { double v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { Tri v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { Tri v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { short v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { unsigned v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { unsigned v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { char v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { char v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { char v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { char v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { char v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { char v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { char v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { char v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { int v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { int v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { size_t v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { GGC_voidp v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { int v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    { int v = GGC_RD(t, d37); if (!same(&v, sizeof(v), s, 37)) return 38; }
    { GGC_voidp v = GGC_RD(t, d38); if (!same(&v, sizeof(v), s, 38)) return 39; }
    { long v = GGC_RD(t, d39); if (!same(&v, sizeof(v), s, 39)) return 40; }
    { double v = GGC_RD(t, d40); if (!same(&v, sizeof(v), s, 40)) return 41; }
    { char v = GGC_RD(t, d41); if (!same(&v, sizeof(v), s, 41)) return 42; }
    { char v = GGC_RD(t, d42); if (!same(&v, sizeof(v), s, 42)) return 43; }
    { char v = GGC_RD(t, d43); if (!same(&v, sizeof(v), s, 43)) return 44; }
    { char v = GGC_RD(t, d44); if (!same(&v, sizeof(v), s, 44)) return 45; }
    { char v = GGC_RD(t, d45); if (!same(&v, sizeof(v), s, 45)) return 46; }
    { char v = GGC_RD(t, d46); if (!same(&v, sizeof(v), s, 46)) return 47; }
    { char v = GGC_RD(t, d47); if (!same(&v, sizeof(v), s, 47)) return 48; }
    { char v = GGC_RD(t, d48); if (!same(&v, sizeof(v), s, 48)) return 49; }
    { GGC_voidp v = GGC_RD(t, d49); if (!same(&v, sizeof(v), s, 49)) return 50; }
    { unsigned v = GGC_RD(t, d50); if (!same(&v, sizeof(v), s, 50)) return 51; }
    { unsigned v = GGC_RD(t, d51); if (!same(&v, sizeof(v), s, 51)) return 52; }
    { Big17 v = GGC_RD(t, d52); if (!same(&v, sizeof(v), s, 52)) return 53; }
    { char v = GGC_RD(t, d53); if (!same(&v, sizeof(v), s, 53)) return 54; }
    { char v = GGC_RD(t, d54); if (!same(&v, sizeof(v), s, 54)) return 55; }
    { char v = GGC_RD(t, d55); if (!same(&v, sizeof(v), s, 55)) return 56; }
    { char v = GGC_RD(t, d56); if (!same(&v, sizeof(v), s, 56)) return 57; }
    { char v = GGC_RD(t, d57); if (!same(&v, sizeof(v), s, 57)) return 58; }
    { char v = GGC_RD(t, d58); if (!same(&v, sizeof(v), s, 58)) return 59; }
    { char v = GGC_RD(t, d59); if (!same(&v, sizeof(v), s, 59)) return 60; }
    { char v = GGC_RD(t, d60); if (!same(&v, sizeof(v), s, 60)) return 61; }
    { Tri v = GGC_RD(t, d61); if (!same(&v, sizeof(v), s, 61)) return 62; }
    { Tri v = GGC_RD(t, d62); if (!same(&v, sizeof(v), s, 62)) return 63; }
    { short v = GGC_RD(t, d63); if (!same(&v, sizeof(v), s, 63)) return 64; }
    { long v = GGC_RD(t, d64); if (!same(&v, sizeof(v), s, 64)) return 65; }
    { long v = GGC_RD(t, d65); if (!same(&v, sizeof(v), s, 65)) return 66; }
    { float v = GGC_RD(t, d66); if (!same(&v, sizeof(v), s, 66)) return 67; }
    { float v = GGC_RD(t, d67); if (!same(&v, sizeof(v), s, 67)) return 68; }
    { GGC_voidp v = GGC_RD(t, d68); if (!same(&v, sizeof(v), s, 68)) return 69; }
    { size_t v = GGC_RD(t, d69); if (!same(&v, sizeof(v), s, 69)) return 70; }
    { char v = GGC_RD(t, d70); if (!same(&v, sizeof(v), s, 70)) return 71; }
    { char v = GGC_RD(t, d71); if (!same(&v, sizeof(v), s, 71)) return 72; }
    { char v = GGC_RD(t, d72); if (!same(&v, sizeof(v), s, 72)) return 73; }
    { char v = GGC_RD(t, d73); if (!same(&v, sizeof(v), s, 73)) return 74; }
    { char v = GGC_RD(t, d74); if (!same(&v, sizeof(v), s, 74)) return 75; }
    { char v = GGC_RD(t, d75); if (!same(&v, sizeof(v), s, 75)) return 76; }
    { char v = GGC_RD(t, d76); if (!same(&v, sizeof(v), s, 76)) return 77; }
    { char v = GGC_RD(t, d77); if (!same(&v, sizeof(v), s, 77)) return 78; }
    { long v = GGC_RD(t, d78); if (!same(&v, sizeof(v), s, 78)) return 79; }
    { Tri v = GGC_RD(t, d79); if (!same(&v, sizeof(v), s, 79)) return 80; }
    { Tri v = GGC_RD(t, d80); if (!same(&v, sizeof(v), s, 80)) return 81; }
    { short v = GGC_RD(t, d81); if (!same(&v, sizeof(v), s, 81)) return 82; }
    { Tri v = GGC_RD(t, d82); if (!same(&v, sizeof(v), s, 82)) return 83; }
    { Tri v = GGC_RD(t, d83); if (!same(&v, sizeof(v), s, 83)) return 84; }
    { short v = GGC_RD(t, d84); if (!same(&v, sizeof(v), s, 84)) return 85; }
    { long v = GGC_RD(t, d85); if (!same(&v, sizeof(v), s, 85)) return 86; }
    { long v = GGC_RD(t, d86); if (!same(&v, sizeof(v), s, 86)) return 87; }
    { Tri v = GGC_RD(t, d87); if (!same(&v, sizeof(v), s, 87)) return 88; }
    { Tri v = GGC_RD(t, d88); if (!same(&v, sizeof(v), s, 88)) return 89; }
    { short v = GGC_RD(t, d89); if (!same(&v, sizeof(v), s, 89)) return 90; }
    { Tri v = GGC_RD(t, d90); if (!same(&v, sizeof(v), s, 90)) return 91; }
    { Tri v = GGC_RD(t, d91); if (!same(&v, sizeof(v), s, 91)) return 92; }
    { short v = GGC_RD(t, d92); if (!same(&v, sizeof(v), s, 92)) return 93; }
    { size_t v = GGC_RD(t, d93); if (!same(&v, sizeof(v), s, 93)) return 94; }
    { char v = GGC_RD(t, d94); if (!same(&v, sizeof(v), s, 94)) return 95; }
    { char v = GGC_RD(t, d95); if (!same(&v, sizeof(v), s, 95)) return 96; }
    { char v = GGC_RD(t, d96); if (!same(&v, sizeof(v), s, 96)) return 97; }
    { char v = GGC_RD(t, d97); if (!same(&v, sizeof(v), s, 97)) return 98; }
    { char v = GGC_RD(t, d98); if (!same(&v, sizeof(v), s, 98)) return 99; }
    { char v = GGC_RD(t, d99); if (!same(&v, sizeof(v), s, 99)) return 100; }
    { char v = GGC_RD(t, d100); if (!same(&v, sizeof(v), s, 100)) return 101; }
    { char v = GGC_RD(t, d101); if (!same(&v, sizeof(v), s, 101)) return 102; }
    { int v = GGC_RD(t, d102); if (!same(&v, sizeof(v), s, 102)) return 103; }
    { int v = GGC_RD(t, d103); if (!same(&v, sizeof(v), s, 103)) return 104; }
    { long v = GGC_RD(t, d104); if (!same(&v, sizeof(v), s, 104)) return 105; }
    { int v = GGC_RD(t, d105); if (!same(&v, sizeof(v), s, 105)) return 106; }
    { int v = GGC_RD(t, d106); if (!same(&v, sizeof(v), s, 106)) return 107; }
    { Tri v = GGC_RD(t, d107); if (!same(&v, sizeof(v), s, 107)) return 108; }
    { Tri v = GGC_RD(t, d108); if (!same(&v, sizeof(v), s, 108)) return 109; }
    { short v = GGC_RD(t, d109); if (!same(&v, sizeof(v), s, 109)) return 110; }
    { long v = GGC_RD(t, d110); if (!same(&v, sizeof(v), s, 110)) return 111; }
    { Big3 v = GGC_RD(t, d111); if (!same(&v, sizeof(v), s, 111)) return 112; }
    { GGC_voidp v = GGC_RD(t, d112); if (!same(&v, sizeof(v), s, 112)) return 113; }
    { double v = GGC_RD(t, d113); if (!same(&v, sizeof(v), s, 113)) return 114; }
    { double v = GGC_RD(t, d114); if (!same(&v, sizeof(v), s, 114)) return 115; }
    { Tri v = GGC_RD(t, d115); if (!same(&v, sizeof(v), s, 115)) return 116; }
    { Tri v = GGC_RD(t, d116); if (!same(&v, sizeof(v), s, 116)) return 117; }
    { short v = GGC_RD(t, d117); if (!same(&v, sizeof(v), s, 117)) return 118; }
    { Big3 v = GGC_RD(t, d118); if (!same(&v, sizeof(v), s, 118)) return 119; }
    { GGC_voidp v = GGC_RD(t, d119); if (!same(&v, sizeof(v), s, 119)) return 120; }
    { Big17 v = GGC_RD(t, d120); if (!same(&v, sizeof(v), s, 120)) return 121; }
    { GGC_voidp v = GGC_RD(t, d121); if (!same(&v, sizeof(v), s, 121)) return 122; }
    { Big17 v = GGC_RD(t, d122); if (!same(&v, sizeof(v), s, 122)) return 123; }
    { long v = GGC_RD(t, d123); if (!same(&v, sizeof(v), s, 123)) return 124; }
    { GGC_voidp v = GGC_RD(t, d124); if (!same(&v, sizeof(v), s, 124)) return 125; }
    { unsigned v = GGC_RD(t, d125); if (!same(&v, sizeof(v), s, 125)) return 126; }
    { unsigned v = GGC_RD(t, d126); if (!same(&v, sizeof(v), s, 126)) return 127; }
    { float v = GGC_RD(t, d127); if (!same(&v, sizeof(v), s, 127)) return 128; }
    { float v = GGC_RD(t, d128); if (!same(&v, sizeof(v), s, 128)) return 129; }
    { Big3 v = GGC_RD(t, d129); if (!same(&v, sizeof(v), s, 129)) return 130; }
    { short v = GGC_RD(t, d130); if (!same(&v, sizeof(v), s, 130)) return 131; }
    { short v = GGC_RD(t, d131); if (!same(&v, sizeof(v), s, 131)) return 132; }
    { short v = GGC_RD(t, d132); if (!same(&v, sizeof(v), s, 132)) return 133; }
    { short v = GGC_RD(t, d133); if (!same(&v, sizeof(v), s, 133)) return 134; }
    { double v = GGC_RD(t, d134); if (!same(&v, sizeof(v), s, 134)) return 135; }
    { double v = GGC_RD(t, d135); if (!same(&v, sizeof(v), s, 135)) return 136; }
    { GGC_voidp v = GGC_RD(t, d136); if (!same(&v, sizeof(v), s, 136)) return 137; }
    { GGC_voidp v = GGC_RD(t, d137); if (!same(&v, sizeof(v), s, 137)) return 138; }
    { unsigned v = GGC_RD(t, d138); if (!same(&v, sizeof(v), s, 138)) return 139; }
    { unsigned v = GGC_RD(t, d139); if (!same(&v, sizeof(v), s, 139)) return 140; }
    { GGC_voidp v = GGC_RD(t, d140); if (!same(&v, sizeof(v), s, 140)) return 141; }
    { long v = GGC_RD(t, d141); if (!same(&v, sizeof(v), s, 141)) return 142; }
    { int v = GGC_RD(t, d142); if (!same(&v, sizeof(v), s, 142)) return 143; }
    { int v = GGC_RD(t, d143); if (!same(&v, sizeof(v), s, 143)) return 144; }
    { GGC_voidp v = GGC_RD(t, d144); if (!same(&v, sizeof(v), s, 144)) return 145; }
    { Big3 v = GGC_RD(t, d145); if (!same(&v, sizeof(v), s, 145)) return 146; }
    return 0; }
static int zero_T63(void *o) { T63 t = (T63) o; if (GGC_RP(t, p0)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T63[] = { offsetof(struct T63__ggggc_struct, p0__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T64)
    GGC_MDATA(size_t, id);
    GGC_MPTR(Leaf, p0);
    GGC_MDATA(unsigned, d0);
    GGC_MDATA(unsigned, d1);
    GGC_MDATA(double, d2);
    GGC_MDATA(long, d3);
    GGC_MDATA(Big17, d4);
    GGC_MDATA(int, d5);
    GGC_MDATA(int, d6);
    GGC_MDATA(long, d7);
    GGC_MDATA(double, d8);
    GGC_MDATA(Tri, d9);
    GGC_MDATA(Tri, d10);
    GGC_MDATA(short, d11);
    GGC_MDATA(float, d12);
    GGC_MDATA(float, d13);
    GGC_MDATA(unsigned, d14);
    GGC_MDATA(unsigned, d15);
    GGC_MDATA(GGC_voidp, d16);
    GGC_MDATA(Big17, d17);
    GGC_MDATA(Big3, d18);
    GGC_MDATA(char, d19);
    GGC_MDATA(char, d20);
    GGC_MDATA(char, d21);
    GGC_MDATA(char, d22);
    GGC_MDATA(char, d23);
    GGC_MDATA(char, d24);
    GGC_MDATA(char, d25);
    GGC_MDATA(char, d26);
    GGC_MDATA(short, d27);
    GGC_MDATA(short, d28);
    GGC_MDATA(short, d29);
    GGC_MDATA(short, d30);
    GGC_MDATA(double, d31);
    GGC_MDATA(Big3, d32);
    GGC_MDATA(size_t, d33);
    GGC_MDATA(size_t, d34);
    GGC_MDATA(double, d35);
    GGC_MDATA(Big3, d36);
    GGC_MPTR(Leaf, p1);
GGC_END_TYPE(T64,
    GGC_PTR(T64, p0)
    GGC_PTR(T64, p1)
    )
static void *new_T64(void) { return GGC_NEW(T64); }
static void setp_T64(void *o, int k, Leaf v) { T64 t = (T64) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    case 1: GGC_WP(t, p1, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T64(void *o, int k) { T64 t = (T64) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    case 1: return GGC_RP(t, p1);
    default: return NULL; } }
static void setd_T64(void *o, uint64_t s) { T64 t = (T64) o; { size_t v = s; GGC_WD(t, id, v); }
    { unsigned v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { unsigned v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { double v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { long v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { Big17 v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { int v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { int v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { long v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { double v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { Tri v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { Tri v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { short v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { float v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { float v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { unsigned v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { unsigned v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { Big17 v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { Big3 v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { char v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { char v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { char v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { char v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { char v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { char v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { char v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { char v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { short v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { short v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { short v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { short v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { double v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { Big3 v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { size_t v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { size_t v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { double v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { Big3 v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
}
static int chkd_T64(void *o, uint64_t s) { T64 t = (T64) o; if (GGC_RD(t, id) != s) return -1;
    { unsigned v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { unsigned v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { double v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { long v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { Big17 v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { int v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { int v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { long v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { double v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { Tri v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { Tri v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { short v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { float v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { float v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { unsigned v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { unsigned v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { GGC_voidp v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { Big17 v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { Big3 v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { char v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { char v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { char v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { char v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { char v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { char v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { char v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { char v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { short v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { short v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { short v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { short v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { double v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { Big3 v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { size_t v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { size_t v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { double v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { Big3 v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    return 0; }
static int zero_T64(void *o) { T64 t = (T64) o; if (GGC_RP(t, p0)) return 1; if (GGC_RP(t, p1)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T64[] = { offsetof(struct T64__ggggc_struct, p0__ptr) / sizeof(size_t), offsetof(struct T64__ggggc_struct, p1__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T65)
    GGC_MDATA(size_t, id);
    GGC_MPTR(Leaf, p0);
    GGC_MDATA(GGC_voidp, d0);
    GGC_MDATA(short, d1);
    GGC_MDATA(short, d2);
    GGC_MDATA(short, d3);
    GGC_MDATA(short, d4);
    GGC_MDATA(size_t, d5);
    GGC_MDATA(float, d6);
    GGC_MDATA(float, d7);
    GGC_MDATA(GGC_voidp, d8);
    GGC_MDATA(char, d9);
    GGC_MDATA(char, d10);
    GGC_MDATA(char, d11);
    GGC_MDATA(char, d12);
    GGC_MDATA(char, d13);
    GGC_MDATA(char, d14);
    GGC_MDATA(char, d15);
    GGC_MDATA(char, d16);
    GGC_MDATA(Big17, d17);
    GGC_MDATA(long, d18);
    GGC_MDATA(Big17, d19);
    GGC_MDATA(int, d20);
    GGC_MDATA(int, d21);
    GGC_MDATA(Big3, d22);
    GGC_MDATA(size_t, d23);
    GGC_MDATA(double, d24);
    GGC_MDATA(Big3, d25);
    GGC_MDATA(size_t, d26);
    GGC_MDATA(double, d27);
    GGC_MDATA(double, d28);
    GGC_MDATA(size_t, d29);
    GGC_MDATA(long, d30);
    GGC_MDATA(int, d31);
    GGC_MDATA(int, d32);
    GGC_MDATA(long, d33);
    GGC_MDATA(GGC_voidp, d34);
    GGC_MDATA(double, d35);
    GGC_MPTR(Leaf, p1);
    GGC_MDATA(float, d36);
    GGC_MDATA(float, d37);
    GGC_MDATA(short, d38);
    GGC_MDATA(short, d39);
    GGC_MDATA(short, d40);
    GGC_MDATA(short, d41);
    GGC_MDATA(unsigned, d42);
    GGC_MDATA(unsigned, d43);
    GGC_MDATA(size_t, d44);
    GGC_MDATA(double, d45);
    GGC_MDATA(size_t, d46);
    GGC_MDATA(double, d47);
    GGC_MDATA(long, d48);
    GGC_MDATA(short, d49);
    GGC_MDATA(short, d50);
    GGC_MDATA(short, d51);
    GGC_MDATA(short, d52);
GGC_END_TYPE(T65,
    GGC_PTR(T65, p0)
    GGC_PTR(T65, p1)
    )
static void *new_T65(void) { return GGC_NEW(T65); }
static void setp_T65(void *o, int k, Leaf v) { T65 t = (T65) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    case 1: GGC_WP(t, p1, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T65(void *o, int k) { T65 t = (T65) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    case 1: return GGC_RP(t, p1);
    default: return NULL; } }
static void setd_T65(void *o, uint64_t s) { T65 t = (T65) o; { size_t v = s; GGC_WD(t, id, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { short v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { short v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { short v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { short v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { size_t v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { float v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { float v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { char v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { char v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { char v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { char v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { char v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { char v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { char v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { char v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { Big17 v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { long v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { Big17 v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { int v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { int v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { Big3 v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { size_t v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { double v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { Big3 v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { size_t v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { double v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { double v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { size_t v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { long v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { int v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { int v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { long v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { double v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { float v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
    { float v; bits(&v, sizeof(v), s, 37); GGC_WD(t, d37, v); }
    { short v; bits(&v, sizeof(v), s, 38); GGC_WD(t, d38, v); }
    { short v; bits(&v, sizeof(v), s, 39); GGC_WD(t, d39, v); }
    { short v; bits(&v, sizeof(v), s, 40); GGC_WD(t, d40, v); }
    { short v; bits(&v, sizeof(v), s, 41); GGC_WD(t, d41, v); }
    { unsigned v; bits(&v, sizeof(v), s, 42); GGC_WD(t, d42, v); }
    { unsigned v; bits(&v, sizeof(v), s, 43); GGC_WD(t, d43, v); }
    { size_t v; bits(&v, sizeof(v), s, 44); GGC_WD(t, d44, v); }
    { double v; bits(&v, sizeof(v), s, 45); GGC_WD(t, d45, v); }
    { size_t v; bits(&v, sizeof(v), s, 46); GGC_WD(t, d46, v); }
    { double v; bits(&v, sizeof(v), s, 47); GGC_WD(t, d47, v); }
    { long v; bits(&v, sizeof(v), s, 48); GGC_WD(t, d48, v); }
    { short v; bits(&v, sizeof(v), s, 49); GGC_WD(t, d49, v); }
    { short v; bits(&v, sizeof(v), s, 50); GGC_WD(t, d50, v); }
    { short v; bits(&v, sizeof(v), s, 51); GGC_WD(t, d51, v); }
    { short v; bits(&v, sizeof(v), s, 52); GGC_WD(t, d52, v); }
}
static int chkd_T65(void *o, uint64_t s) { T65 t = (T65) o; if (GGC_RD(t, id) != s) return -1;
    { GGC_voidp v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { short v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { short v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { short v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { short v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { size_t v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { float v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { float v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { GGC_voidp v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { char v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { char v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { char v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { char v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { char v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { char v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { char v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { char v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { Big17 v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { long v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { Big17 v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { int v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { int v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { Big3 v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { size_t v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { double v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { Big3 v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { size_t v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { double v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { double v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { size_t v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { long v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { int v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { int v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { long v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { GGC_voidp v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { double v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { float v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    { float v = GGC_RD(t, d37); if (!same(&v, sizeof(v), s, 37)) return 38; }
    { short v = GGC_RD(t, d38); if (!same(&v, sizeof(v), s, 38)) return 39; }
    { short v = GGC_RD(t, d39); if (!same(&v, sizeof(v), s, 39)) return 40; }
    { short v = GGC_RD(t, d40); if (!same(&v, sizeof(v), s, 40)) return 41; }
    { short v = GGC_RD(t, d41); if (!same(&v, sizeof(v), s, 41)) return 42; }
    { unsigned v = GGC_RD(t, d42); if (!same(&v, sizeof(v), s, 42)) return 43; }
    { unsigned v = GGC_RD(t, d43); if (!same(&v, sizeof(v), s, 43)) return 44; }
    { size_t v = GGC_RD(t, d44); if (!same(&v, sizeof(v), s, 44)) return 45; }
    { double v = GGC_RD(t, d45); if (!same(&v, sizeof(v), s, 45)) return 46; }
    { size_t v = GGC_RD(t, d46); if (!same(&v, sizeof(v), s, 46)) return 47; }
    { double v = GGC_RD(t, d47); if (!same(&v, sizeof(v), s, 47)) return 48; }
    { long v = GGC_RD(t, d48); if (!same(&v, sizeof(v), s, 48)) return 49; }
    { short v = GGC_RD(t, d49); if (!same(&v, sizeof(v), s, 49)) return 50; }
    { short v = GGC_RD(t, d50); if (!same(&v, sizeof(v), s, 50)) return 51; }
    { short v = GGC_RD(t, d51); if (!same(&v, sizeof(v), s, 51)) return 52; }
    { short v = GGC_RD(t, d52); if (!same(&v, sizeof(v), s, 52)) return 53; }
    return 0; }
static int zero_T65(void *o) { T65 t = (T65) o; if (GGC_RP(t, p0)) return 1; if (GGC_RP(t, p1)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T65[] = { offsetof(struct T65__ggggc_struct, p0__ptr) / sizeof(size_t), offsetof(struct T65__ggggc_struct, p1__ptr) / sizeof(size_t), 0 };

GGC_TYPE(T66)
    GGC_MDATA(size_t, id);
    GGC_MPTR(Leaf, p0);
    GGC_MDATA(Tri, d0);
    GGC_MDATA(Tri, d1);
    GGC_MDATA(short, d2);
    GGC_MDATA(long, d3);
    GGC_MDATA(size_t, d4);
    GGC_MDATA(double, d5);
    GGC_MDATA(char, d6);
    GGC_MDATA(char, d7);
    GGC_MDATA(char, d8);
    GGC_MDATA(char, d9);
    GGC_MDATA(char, d10);
    GGC_MDATA(char, d11);
    GGC_MDATA(char, d12);
    GGC_MDATA(char, d13);
    GGC_MDATA(long, d14);
    GGC_MDATA(double, d15);
    GGC_MDATA(short, d16);
    GGC_MDATA(short, d17);
    GGC_MDATA(short, d18);
    GGC_MDATA(short, d19);
    GGC_MDATA(char, d20);
    GGC_MDATA(char, d21);
    GGC_MDATA(char, d22);
    GGC_MDATA(char, d23);
    GGC_MDATA(char, d24);
    GGC_MDATA(char, d25);
    GGC_MDATA(char, d26);
    GGC_MDATA(char, d27);
    GGC_MDATA(short, d28);
    GGC_MDATA(short, d29);
    GGC_MDATA(short, d30);
    GGC_MDATA(short, d31);
    GGC_MDATA(size_t, d32);
    GGC_MDATA(GGC_voidp, d33);
    GGC_MDATA(short, d34);
    GGC_MDATA(short, d35);
    GGC_MDATA(short, d36);
    GGC_MDATA(short, d37);
    GGC_MDATA(Big3, d38);
    GGC_MDATA(size_t, d39);
    GGC_MDATA(Big17, d40);
    GGC_MDATA(char, d41);
    GGC_MDATA(char, d42);
    GGC_MDATA(char, d43);
    GGC_MDATA(char, d44);
    GGC_MDATA(char, d45);
    GGC_MDATA(char, d46);
    GGC_MDATA(char, d47);
    GGC_MDATA(char, d48);
    GGC_MDATA(double, d49);
    GGC_MDATA(Big3, d50);
    GGC_MDATA(Big3, d51);
    GGC_MDATA(Big17, d52);
    GGC_MPTR(Leaf, p1);
    GGC_MDATA(double, d53);
    GGC_MDATA(short, d54);
    GGC_MDATA(short, d55);
    GGC_MDATA(short, d56);
    GGC_MDATA(short, d57);
    GGC_MDATA(long, d58);
    GGC_MDATA(int, d59);
    GGC_MDATA(int, d60);
    GGC_MDATA(GGC_voidp, d61);
    GGC_MDATA(long, d62);
    GGC_MDATA(double, d63);
    GGC_MDATA(Big17, d64);
    GGC_MDATA(unsigned, d65);
    GGC_MDATA(unsigned, d66);
    GGC_MDATA(char, d67);
    GGC_MDATA(char, d68);
    GGC_MDATA(char, d69);
    GGC_MDATA(char, d70);
    GGC_MDATA(char, d71);
    GGC_MDATA(char, d72);
    GGC_MDATA(char, d73);
    GGC_MDATA(char, d74);
    GGC_MDATA(short, d75);
    GGC_MDATA(short, d76);
    GGC_MDATA(short, d77);
    GGC_MDATA(short, d78);
    GGC_MDATA(GGC_voidp, d79);
    GGC_MDATA(long, d80);
    GGC_MDATA(GGC_voidp, d81);
    GGC_MDATA(Big3, d82);
    GGC_MDATA(Tri, d83);
    GGC_MDATA(Tri, d84);
    GGC_MDATA(short, d85);
    GGC_MDATA(double, d86);
    GGC_MDATA(size_t, d87);
    GGC_MDATA(GGC_voidp, d88);
    GGC_MDATA(double, d89);
    GGC_MDATA(unsigned, d90);
    GGC_MDATA(unsigned, d91);
    GGC_MDATA(size_t, d92);
    GGC_MDATA(unsigned, d93);
    GGC_MDATA(unsigned, d94);
    GGC_MDATA(Big17, d95);
    GGC_MDATA(int, d96);
    GGC_MDATA(int, d97);
    GGC_MDATA(Big3, d98);
    GGC_MDATA(int, d99);
    GGC_MDATA(int, d100);
    GGC_MDATA(double, d101);
    GGC_MDATA(size_t, d102);
    GGC_MDATA(unsigned, d103);
    GGC_MDATA(unsigned, d104);
    GGC_MDATA(Big3, d105);
GGC_END_TYPE(T66,
    GGC_PTR(T66, p0)
    GGC_PTR(T66, p1)
    )
static void *new_T66(void) { return GGC_NEW(T66); }
static void setp_T66(void *o, int k, Leaf v) { T66 t = (T66) o; (void) t; (void) v; switch (k) {
    case 0: GGC_WP(t, p0, v); break;
    case 1: GGC_WP(t, p1, v); break;
    default: vh_bug("member"); } }
static Leaf getp_T66(void *o, int k) { T66 t = (T66) o; (void) t; switch (k) {
    case 0: return GGC_RP(t, p0);
    case 1: return GGC_RP(t, p1);
    default: return NULL; } }
static void setd_T66(void *o, uint64_t s) { T66 t = (T66) o; { size_t v = s; GGC_WD(t, id, v); }
    { Tri v; bits(&v, sizeof(v), s, 0); GGC_WD(t, d0, v); }
    { Tri v; bits(&v, sizeof(v), s, 1); GGC_WD(t, d1, v); }
    { short v; bits(&v, sizeof(v), s, 2); GGC_WD(t, d2, v); }
    { long v; bits(&v, sizeof(v), s, 3); GGC_WD(t, d3, v); }
    { size_t v; bits(&v, sizeof(v), s, 4); GGC_WD(t, d4, v); }
    { double v; bits(&v, sizeof(v), s, 5); GGC_WD(t, d5, v); }
    { char v; bits(&v, sizeof(v), s, 6); GGC_WD(t, d6, v); }
    { char v; bits(&v, sizeof(v), s, 7); GGC_WD(t, d7, v); }
    { char v; bits(&v, sizeof(v), s, 8); GGC_WD(t, d8, v); }
    { char v; bits(&v, sizeof(v), s, 9); GGC_WD(t, d9, v); }
    { char v; bits(&v, sizeof(v), s, 10); GGC_WD(t, d10, v); }
    { char v; bits(&v, sizeof(v), s, 11); GGC_WD(t, d11, v); }
    { char v; bits(&v, sizeof(v), s, 12); GGC_WD(t, d12, v); }
    { char v; bits(&v, sizeof(v), s, 13); GGC_WD(t, d13, v); }
    { long v; bits(&v, sizeof(v), s, 14); GGC_WD(t, d14, v); }
    { double v; bits(&v, sizeof(v), s, 15); GGC_WD(t, d15, v); }
    { short v; bits(&v, sizeof(v), s, 16); GGC_WD(t, d16, v); }
    { short v; bits(&v, sizeof(v), s, 17); GGC_WD(t, d17, v); }
    { short v; bits(&v, sizeof(v), s, 18); GGC_WD(t, d18, v); }
    { short v; bits(&v, sizeof(v), s, 19); GGC_WD(t, d19, v); }
    { char v; bits(&v, sizeof(v), s, 20); GGC_WD(t, d20, v); }
    { char v; bits(&v, sizeof(v), s, 21); GGC_WD(t, d21, v); }
    { char v; bits(&v, sizeof(v), s, 22); GGC_WD(t, d22, v); }
    { char v; bits(&v, sizeof(v), s, 23); GGC_WD(t, d23, v); }
    { char v; bits(&v, sizeof(v), s, 24); GGC_WD(t, d24, v); }
    { char v; bits(&v, sizeof(v), s, 25); GGC_WD(t, d25, v); }
    { char v; bits(&v, sizeof(v), s, 26); GGC_WD(t, d26, v); }
    { char v; bits(&v, sizeof(v), s, 27); GGC_WD(t, d27, v); }
    { short v; bits(&v, sizeof(v), s, 28); GGC_WD(t, d28, v); }
    { short v; bits(&v, sizeof(v), s, 29); GGC_WD(t, d29, v); }
    { short v; bits(&v, sizeof(v), s, 30); GGC_WD(t, d30, v); }
    { short v; bits(&v, sizeof(v), s, 31); GGC_WD(t, d31, v); }
    { size_t v; bits(&v, sizeof(v), s, 32); GGC_WD(t, d32, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 33); GGC_WD(t, d33, v); }
    { short v; bits(&v, sizeof(v), s, 34); GGC_WD(t, d34, v); }
    { short v; bits(&v, sizeof(v), s, 35); GGC_WD(t, d35, v); }
    { short v; bits(&v, sizeof(v), s, 36); GGC_WD(t, d36, v); }
    { short v; bits(&v, sizeof(v), s, 37); GGC_WD(t, d37, v); }
    { Big3 v; bits(&v, sizeof(v), s, 38); GGC_WD(t, d38, v); }
    { size_t v; bits(&v, sizeof(v), s, 39); GGC_WD(t, d39, v); }
    { Big17 v; bits(&v, sizeof(v), s, 40); GGC_WD(t, d40, v); }
    { char v; bits(&v, sizeof(v), s, 41); GGC_WD(t, d41, v); }
    { char v; bits(&v, sizeof(v), s, 42); GGC_WD(t, d42, v); }
    { char v; bits(&v, sizeof(v), s, 43); GGC_WD(t, d43, v); }
    { char v; bits(&v, sizeof(v), s, 44); GGC_WD(t, d44, v); }
    { char v; bits(&v, sizeof(v), s, 45); GGC_WD(t, d45, v); }
    { char v; bits(&v, sizeof(v), s, 46); GGC_WD(t, d46, v); }
    { char v; bits(&v, sizeof(v), s, 47); GGC_WD(t, d47, v); }
    { char v; bits(&v, sizeof(v), s, 48); GGC_WD(t, d48, v); }
    { double v; bits(&v, sizeof(v), s, 49); GGC_WD(t, d49, v); }
    { Big3 v; bits(&v, sizeof(v), s, 50); GGC_WD(t, d50, v); }
    { Big3 v; bits(&v, sizeof(v), s, 51); GGC_WD(t, d51, v); }
    { Big17 v; bits(&v, sizeof(v), s, 52); GGC_WD(t, d52, v); }
    { double v; bits(&v, sizeof(v), s, 53); GGC_WD(t, d53, v); }
    { short v; bits(&v, sizeof(v), s, 54); GGC_WD(t, d54, v); }
    { short v; bits(&v, sizeof(v), s, 55); GGC_WD(t, d55, v); }
    { short v; bits(&v, sizeof(v), s, 56); GGC_WD(t, d56, v); }
    { short v; bits(&v, sizeof(v), s, 57); GGC_WD(t, d57, v); }
    { long v; bits(&v, sizeof(v), s, 58); GGC_WD(t, d58, v); }
    { int v; bits(&v, sizeof(v), s, 59); GGC_WD(t, d59, v); }
    { int v; bits(&v, sizeof(v), s, 60); GGC_WD(t, d60, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 61); GGC_WD(t, d61, v); }
    { long v; bits(&v, sizeof(v), s, 62); GGC_WD(t, d62, v); }
    { double v; bits(&v, sizeof(v), s, 63); GGC_WD(t, d63, v); }
    { Big17 v; bits(&v, sizeof(v), s, 64); GGC_WD(t, d64, v); }
    { unsigned v; bits(&v, sizeof(v), s, 65); GGC_WD(t, d65, v); }
    { unsigned v; bits(&v, sizeof(v), s, 66); GGC_WD(t, d66, v); }
    { char v; bits(&v, sizeof(v), s, 67); GGC_WD(t, d67, v); }
    { char v; bits(&v, sizeof(v), s, 68); GGC_WD(t, d68, v); }
    { char v; bits(&v, sizeof(v), s, 69); GGC_WD(t, d69, v); }
    { char v; bits(&v, sizeof(v), s, 70); GGC_WD(t, d70, v); }
    { char v; bits(&v, sizeof(v), s, 71); GGC_WD(t, d71, v); }
    { char v; bits(&v, sizeof(v), s, 72); GGC_WD(t, d72, v); }
    { char v; bits(&v, sizeof(v), s, 73); GGC_WD(t, d73, v); }
    { char v; bits(&v, sizeof(v), s, 74); GGC_WD(t, d74, v); }
    { short v; bits(&v, sizeof(v), s, 75); GGC_WD(t, d75, v); }
    { short v; bits(&v, sizeof(v), s, 76); GGC_WD(t, d76, v); }
    { short v; bits(&v, sizeof(v), s, 77); GGC_WD(t, d77, v); }
    { short v; bits(&v, sizeof(v), s, 78); GGC_WD(t, d78, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 79); GGC_WD(t, d79, v); }
    { long v; bits(&v, sizeof(v), s, 80); GGC_WD(t, d80, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 81); GGC_WD(t, d81, v); }
    { Big3 v; bits(&v, sizeof(v), s, 82); GGC_WD(t, d82, v); }
    { Tri v; bits(&v, sizeof(v), s, 83); GGC_WD(t, d83, v); }
    { Tri v; bits(&v, sizeof(v), s, 84); GGC_WD(t, d84, v); }
    { short v; bits(&v, sizeof(v), s, 85); GGC_WD(t, d85, v); }
    { double v; bits(&v, sizeof(v), s, 86); GGC_WD(t, d86, v); }
    { size_t v; bits(&v, sizeof(v), s, 87); GGC_WD(t, d87, v); }
    { GGC_voidp v; bits(&v, sizeof(v), s, 88); GGC_WD(t, d88, v); }
    { double v; bits(&v, sizeof(v), s, 89); GGC_WD(t, d89, v); }
    { unsigned v; bits(&v, sizeof(v), s, 90); GGC_WD(t, d90, v); }
    { unsigned v; bits(&v, sizeof(v), s, 91); GGC_WD(t, d91, v); }
    { size_t v; bits(&v, sizeof(v), s, 92); GGC_WD(t, d92, v); }
    { unsigned v; bits(&v, sizeof(v), s, 93); GGC_WD(t, d93, v); }
    { unsigned v; bits(&v, sizeof(v), s, 94); GGC_WD(t, d94, v); }
    { Big17 v; bits(&v, sizeof(v), s, 95); GGC_WD(t, d95, v); }
    { int v; bits(&v, sizeof(v), s, 96); GGC_WD(t, d96, v); }
    { int v; bits(&v, sizeof(v), s, 97); GGC_WD(t, d97, v); }
    { Big3 v; bits(&v, sizeof(v), s, 98); GGC_WD(t, d98, v); }
    { int v; bits(&v, sizeof(v), s, 99); GGC_WD(t, d99, v); }
    { int v; bits(&v, sizeof(v), s, 100); GGC_WD(t, d100, v); }
    { double v; bits(&v, sizeof(v), s, 101); GGC_WD(t, d101, v); }
    { size_t v; bits(&v, sizeof(v), s, 102); GGC_WD(t, d102, v); }
    { unsigned v; bits(&v, sizeof(v), s, 103); GGC_WD(t, d103, v); }
    { unsigned v; bits(&v, sizeof(v), s, 104); GGC_WD(t, d104, v); }
    { Big3 v; bits(&v, sizeof(v), s, 105); GGC_WD(t, d105, v); }
}
static int chkd_T66(void *o, uint64_t s) { T66 t = (T66) o; if (GGC_RD(t, id) != s) return -1;
    { Tri v = GGC_RD(t, d0); if (!same(&v, sizeof(v), s, 0)) return 1; }
    { Tri v = GGC_RD(t, d1); if (!same(&v, sizeof(v), s, 1)) return 2; }
    { short v = GGC_RD(t, d2); if (!same(&v, sizeof(v), s, 2)) return 3; }
    { long v = GGC_RD(t, d3); if (!same(&v, sizeof(v), s, 3)) return 4; }
    { size_t v = GGC_RD(t, d4); if (!same(&v, sizeof(v), s, 4)) return 5; }
    { double v = GGC_RD(t, d5); if (!same(&v, sizeof(v), s, 5)) return 6; }
    { char v = GGC_RD(t, d6); if (!same(&v, sizeof(v), s, 6)) return 7; }
    { char v = GGC_RD(t, d7); if (!same(&v, sizeof(v), s, 7)) return 8; }
    { char v = GGC_RD(t, d8); if (!same(&v, sizeof(v), s, 8)) return 9; }
    { char v = GGC_RD(t, d9); if (!same(&v, sizeof(v), s, 9)) return 10; }
    { char v = GGC_RD(t, d10); if (!same(&v, sizeof(v), s, 10)) return 11; }
    { char v = GGC_RD(t, d11); if (!same(&v, sizeof(v), s, 11)) return 12; }
    { char v = GGC_RD(t, d12); if (!same(&v, sizeof(v), s, 12)) return 13; }
    { char v = GGC_RD(t, d13); if (!same(&v, sizeof(v), s, 13)) return 14; }
    { long v = GGC_RD(t, d14); if (!same(&v, sizeof(v), s, 14)) return 15; }
    { double v = GGC_RD(t, d15); if (!same(&v, sizeof(v), s, 15)) return 16; }
    { short v = GGC_RD(t, d16); if (!same(&v, sizeof(v), s, 16)) return 17; }
    { short v = GGC_RD(t, d17); if (!same(&v, sizeof(v), s, 17)) return 18; }
    { short v = GGC_RD(t, d18); if (!same(&v, sizeof(v), s, 18)) return 19; }
    { short v = GGC_RD(t, d19); if (!same(&v, sizeof(v), s, 19)) return 20; }
    { char v = GGC_RD(t, d20); if (!same(&v, sizeof(v), s, 20)) return 21; }
    { char v = GGC_RD(t, d21); if (!same(&v, sizeof(v), s, 21)) return 22; }
    { char v = GGC_RD(t, d22); if (!same(&v, sizeof(v), s, 22)) return 23; }
    { char v = GGC_RD(t, d23); if (!same(&v, sizeof(v), s, 23)) return 24; }
    { char v = GGC_RD(t, d24); if (!same(&v, sizeof(v), s, 24)) return 25; }
    { char v = GGC_RD(t, d25); if (!same(&v, sizeof(v), s, 25)) return 26; }
    { char v = GGC_RD(t, d26); if (!same(&v, sizeof(v), s, 26)) return 27; }
    { char v = GGC_RD(t, d27); if (!same(&v, sizeof(v), s, 27)) return 28; }
    { short v = GGC_RD(t, d28); if (!same(&v, sizeof(v), s, 28)) return 29; }
    { short v = GGC_RD(t, d29); if (!same(&v, sizeof(v), s, 29)) return 30; }
    { short v = GGC_RD(t, d30); if (!same(&v, sizeof(v), s, 30)) return 31; }
    { short v = GGC_RD(t, d31); if (!same(&v, sizeof(v), s, 31)) return 32; }
    { size_t v = GGC_RD(t, d32); if (!same(&v, sizeof(v), s, 32)) return 33; }
    { GGC_voidp v = GGC_RD(t, d33); if (!same(&v, sizeof(v), s, 33)) return 34; }
    { short v = GGC_RD(t, d34); if (!same(&v, sizeof(v), s, 34)) return 35; }
    { short v = GGC_RD(t, d35); if (!same(&v, sizeof(v), s, 35)) return 36; }
    { short v = GGC_RD(t, d36); if (!same(&v, sizeof(v), s, 36)) return 37; }
    { short v = GGC_RD(t, d37); if (!same(&v, sizeof(v), s, 37)) return 38; }
    { Big3 v = GGC_RD(t, d38); if (!same(&v, sizeof(v), s, 38)) return 39; }
    { size_t v = GGC_RD(t, d39); if (!same(&v, sizeof(v), s, 39)) return 40; }
    { Big17 v = GGC_RD(t, d40); if (!same(&v, sizeof(v), s, 40)) return 41; }
    { char v = GGC_RD(t, d41); if (!same(&v, sizeof(v), s, 41)) return 42; }
    { char v = GGC_RD(t, d42); if (!same(&v, sizeof(v), s, 42)) return 43; }
    { char v = GGC_RD(t, d43); if (!same(&v, sizeof(v), s, 43)) return 44; }
    { char v = GGC_RD(t, d44); if (!same(&v, sizeof(v), s, 44)) return 45; }
    { char v = GGC_RD(t, d45); if (!same(&v, sizeof(v), s, 45)) return 46; }
    { char v = GGC_RD(t, d46); if (!same(&v, sizeof(v), s, 46)) return 47; }
    { char v = GGC_RD(t, d47); if (!same(&v, sizeof(v), s, 47)) return 48; }
    { char v = GGC_RD(t, d48); if (!same(&v, sizeof(v), s, 48)) return 49; }
    { double v = GGC_RD(t, d49); if (!same(&v, sizeof(v), s, 49)) return 50; }
    { Big3 v = GGC_RD(t, d50); if (!same(&v, sizeof(v), s, 50)) return 51; }
    { Big3 v = GGC_RD(t, d51); if (!same(&v, sizeof(v), s, 51)) return 52; }
    { Big17 v = GGC_RD(t, d52); if (!same(&v, sizeof(v), s, 52)) return 53; }
    { double v = GGC_RD(t, d53); if (!same(&v, sizeof(v), s, 53)) return 54; }
    { short v = GGC_RD(t, d54); if (!same(&v, sizeof(v), s, 54)) return 55; }
    { short v = GGC_RD(t, d55); if (!same(&v, sizeof(v), s, 55)) return 56; }
    { short v = GGC_RD(t, d56); if (!same(&v, sizeof(v), s, 56)) return 57; }
    { short v = GGC_RD(t, d57); if (!same(&v, sizeof(v), s, 57)) return 58; }
    { long v = GGC_RD(t, d58); if (!same(&v, sizeof(v), s, 58)) return 59; }
    { int v = GGC_RD(t, d59); if (!same(&v, sizeof(v), s, 59)) return 60; }
    { int v = GGC_RD(t, d60); if (!same(&v, sizeof(v), s, 60)) return 61; }
    { GGC_voidp v = GGC_RD(t, d61); if (!same(&v, sizeof(v), s, 61)) return 62; }
    { long v = GGC_RD(t, d62); if (!same(&v, sizeof(v), s, 62)) return 63; }
    { double v = GGC_RD(t, d63); if (!same(&v, sizeof(v), s, 63)) return 64; }
    { Big17 v = GGC_RD(t, d64); if (!same(&v, sizeof(v), s, 64)) return 65; }
    { unsigned v = GGC_RD(t, d65); if (!same(&v, sizeof(v), s, 65)) return 66; }
    { unsigned v = GGC_RD(t, d66); if (!same(&v, sizeof(v), s, 66)) return 67; }
    { char v = GGC_RD(t, d67); if (!same(&v, sizeof(v), s, 67)) return 68; }
    { char v = GGC_RD(t, d68); if (!same(&v, sizeof(v), s, 68)) return 69; }
    { char v = GGC_RD(t, d69); if (!same(&v, sizeof(v), s, 69)) return 70; }
    { char v = GGC_RD(t, d70); if (!same(&v, sizeof(v), s, 70)) return 71; }
    { char v = GGC_RD(t, d71); if (!same(&v, sizeof(v), s, 71)) return 72; }
    { char v = GGC_RD(t, d72); if (!same(&v, sizeof(v), s, 72)) return 73; }
    { char v = GGC_RD(t, d73); if (!same(&v, sizeof(v), s, 73)) return 74; }
    { char v = GGC_RD(t, d74); if (!same(&v, sizeof(v), s, 74)) return 75; }
    { short v = GGC_RD(t, d75); if (!same(&v, sizeof(v), s, 75)) return 76; }
    { short v = GGC_RD(t, d76); if (!same(&v, sizeof(v), s, 76)) return 77; }
    { short v = GGC_RD(t, d77); if (!same(&v, sizeof(v), s, 77)) return 78; }
    { short v = GGC_RD(t, d78); if (!same(&v, sizeof(v), s, 78)) return 79; }
    { GGC_voidp v = GGC_RD(t, d79); if (!same(&v, sizeof(v), s, 79)) return 80; }
    { long v = GGC_RD(t, d80); if (!same(&v, sizeof(v), s, 80)) return 81; }
    { GGC_voidp v = GGC_RD(t, d81); if (!same(&v, sizeof(v), s, 81)) return 82; }
    { Big3 v = GGC_RD(t, d82); if (!same(&v, sizeof(v), s, 82)) return 83; }
    { Tri v = GGC_RD(t, d83); if (!same(&v, sizeof(v), s, 83)) return 84; }
    { Tri v = GGC_RD(t, d84); if (!same(&v, sizeof(v), s, 84)) return 85; }
    { short v = GGC_RD(t, d85); if (!same(&v, sizeof(v), s, 85)) return 86; }
    { double v = GGC_RD(t, d86); if (!same(&v, sizeof(v), s, 86)) return 87; }
    { size_t v = GGC_RD(t, d87); if (!same(&v, sizeof(v), s, 87)) return 88; }
    { GGC_voidp v = GGC_RD(t, d88); if (!same(&v, sizeof(v), s, 88)) return 89; }
    { double v = GGC_RD(t, d89); if (!same(&v, sizeof(v), s, 89)) return 90; }
    { unsigned v = GGC_RD(t, d90); if (!same(&v, sizeof(v), s, 90)) return 91; }
    { unsigned v = GGC_RD(t, d91); if (!same(&v, sizeof(v), s, 91)) return 92; }
    { size_t v = GGC_RD(t, d92); if (!same(&v, sizeof(v), s, 92)) return 93; }
    { unsigned v = GGC_RD(t, d93); if (!same(&v, sizeof(v), s, 93)) return 94; }
    { unsigned v = GGC_RD(t, d94); if (!same(&v, sizeof(v), s, 94)) return 95; }
    { Big17 v = GGC_RD(t, d95); if (!same(&v, sizeof(v), s, 95)) return 96; }
    { int v = GGC_RD(t, d96); if (!same(&v, sizeof(v), s, 96)) return 97; }
    { int v = GGC_RD(t, d97); if (!same(&v, sizeof(v), s, 97)) return 98; }
    { Big3 v = GGC_RD(t, d98); if (!same(&v, sizeof(v), s, 98)) return 99; }
    { int v = GGC_RD(t, d99); if (!same(&v, sizeof(v), s, 99)) return 100; }
    { int v = GGC_RD(t, d100); if (!same(&v, sizeof(v), s, 100)) return 101; }
    { double v = GGC_RD(t, d101); if (!same(&v, sizeof(v), s, 101)) return 102; }
    { size_t v = GGC_RD(t, d102); if (!same(&v, sizeof(v), s, 102)) return 103; }
    { unsigned v = GGC_RD(t, d103); if (!same(&v, sizeof(v), s, 103)) return 104; }
    { unsigned v = GGC_RD(t, d104); if (!same(&v, sizeof(v), s, 104)) return 105; }
    { Big3 v = GGC_RD(t, d105); if (!same(&v, sizeof(v), s, 105)) return 106; }
    return 0; }
static int zero_T66(void *o) { T66 t = (T66) o; if (GGC_RP(t, p0)) return 1; if (GGC_RP(t, p1)) return 1;  { unsigned char *b = (unsigned char *) o, *e = b + sizeof(*t); for (b += sizeof(struct GGGGC_Header); b < e; b++) if (*b) return 1; } return 0; }
static const size_t off_T66[] = { offsetof(struct T66__ggggc_struct, p0__ptr) / sizeof(size_t), offsetof(struct T66__ggggc_struct, p1__ptr) / sizeof(size_t), 0 };

struct TInfo { const char *name; int np, nd; size_t words; const size_t *off; void *(*mk)(void); void (*setp)(void *, int, Leaf); Leaf (*getp)(void *, int); void (*setd)(void *, uint64_t); int (*chkd)(void *, uint64_t); int (*zero)(void *); };
static const struct TInfo tinfo[] = {
    { "T0", 1, 0, (sizeof(struct T0__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T0, new_T0, setp_T0, getp_T0, setd_T0, chkd_T0, zero_T0 },
    { "T1", 1, 21, (sizeof(struct T1__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T1, new_T1, setp_T1, getp_T1, setd_T1, chkd_T1, zero_T1 },
    { "T2", 1, 2, (sizeof(struct T2__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T2, new_T2, setp_T2, getp_T2, setd_T2, chkd_T2, zero_T2 },
    { "T3", 1, 13, (sizeof(struct T3__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T3, new_T3, setp_T3, getp_T3, setd_T3, chkd_T3, zero_T3 },
    { "T4", 1, 33, (sizeof(struct T4__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T4, new_T4, setp_T4, getp_T4, setd_T4, chkd_T4, zero_T4 },
    { "T5", 1, 16, (sizeof(struct T5__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T5, new_T5, setp_T5, getp_T5, setd_T5, chkd_T5, zero_T5 },
    { "T6", 1, 35, (sizeof(struct T6__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T6, new_T6, setp_T6, getp_T6, setd_T6, chkd_T6, zero_T6 },
    { "T7", 1, 37, (sizeof(struct T7__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T7, new_T7, setp_T7, getp_T7, setd_T7, chkd_T7, zero_T7 },
    { "T8", 1, 35, (sizeof(struct T8__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T8, new_T8, setp_T8, getp_T8, setd_T8, chkd_T8, zero_T8 },
    { "T9", 1, 33, (sizeof(struct T9__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T9, new_T9, setp_T9, getp_T9, setd_T9, chkd_T9, zero_T9 },
    { "T10", 1, 40, (sizeof(struct T10__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T10, new_T10, setp_T10, getp_T10, setd_T10, chkd_T10, zero_T10 },
    { "T11", 1, 58, (sizeof(struct T11__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T11, new_T11, setp_T11, getp_T11, setd_T11, chkd_T11, zero_T11 },
    { "T12", 1, 86, (sizeof(struct T12__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T12, new_T12, setp_T12, getp_T12, setd_T12, chkd_T12, zero_T12 },
    { "T13", 1, 64, (sizeof(struct T13__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T13, new_T13, setp_T13, getp_T13, setd_T13, chkd_T13, zero_T13 },
    { "T14", 1, 76, (sizeof(struct T14__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T14, new_T14, setp_T14, getp_T14, setd_T14, chkd_T14, zero_T14 },
    { "T15", 0, 0, (sizeof(struct T15__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T15, new_T15, setp_T15, getp_T15, setd_T15, chkd_T15, zero_T15 },
    { "T16", 0, 1, (sizeof(struct T16__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T16, new_T16, setp_T16, getp_T16, setd_T16, chkd_T16, zero_T16 },
    { "T17", 0, 2, (sizeof(struct T17__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T17, new_T17, setp_T17, getp_T17, setd_T17, chkd_T17, zero_T17 },
    { "T18", 0, 6, (sizeof(struct T18__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T18, new_T18, setp_T18, getp_T18, setd_T18, chkd_T18, zero_T18 },
    { "T19", 0, 6, (sizeof(struct T19__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T19, new_T19, setp_T19, getp_T19, setd_T19, chkd_T19, zero_T19 },
    { "T20", 0, 12, (sizeof(struct T20__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T20, new_T20, setp_T20, getp_T20, setd_T20, chkd_T20, zero_T20 },
    { "T21", 0, 17, (sizeof(struct T21__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T21, new_T21, setp_T21, getp_T21, setd_T21, chkd_T21, zero_T21 },
    { "T22", 0, 39, (sizeof(struct T22__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T22, new_T22, setp_T22, getp_T22, setd_T22, chkd_T22, zero_T22 },
    { "T23", 0, 16, (sizeof(struct T23__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T23, new_T23, setp_T23, getp_T23, setd_T23, chkd_T23, zero_T23 },
    { "T24", 0, 35, (sizeof(struct T24__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T24, new_T24, setp_T24, getp_T24, setd_T24, chkd_T24, zero_T24 },
    { "T25", 0, 51, (sizeof(struct T25__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T25, new_T25, setp_T25, getp_T25, setd_T25, chkd_T25, zero_T25 },
    { "T26", 0, 24, (sizeof(struct T26__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T26, new_T26, setp_T26, getp_T26, setd_T26, chkd_T26, zero_T26 },
    { "T27", 0, 84, (sizeof(struct T27__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T27, new_T27, setp_T27, getp_T27, setd_T27, chkd_T27, zero_T27 },
    { "T28", 0, 56, (sizeof(struct T28__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T28, new_T28, setp_T28, getp_T28, setd_T28, chkd_T28, zero_T28 },
    { "T29", 0, 38, (sizeof(struct T29__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T29, new_T29, setp_T29, getp_T29, setd_T29, chkd_T29, zero_T29 },
    { "T30", 0, 51, (sizeof(struct T30__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T30, new_T30, setp_T30, getp_T30, setd_T30, chkd_T30, zero_T30 },
    { "T31", 0, 68, (sizeof(struct T31__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T31, new_T31, setp_T31, getp_T31, setd_T31, chkd_T31, zero_T31 },
    { "T32", 0, 78, (sizeof(struct T32__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T32, new_T32, setp_T32, getp_T32, setd_T32, chkd_T32, zero_T32 },
    { "T33", 0, 75, (sizeof(struct T33__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T33, new_T33, setp_T33, getp_T33, setd_T33, chkd_T33, zero_T33 },
    { "T34", 0, 70, (sizeof(struct T34__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T34, new_T34, setp_T34, getp_T34, setd_T34, chkd_T34, zero_T34 },
    { "T35", 0, 160, (sizeof(struct T35__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T35, new_T35, setp_T35, getp_T35, setd_T35, chkd_T35, zero_T35 },
    { "T36", 1, 0, (sizeof(struct T36__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T36, new_T36, setp_T36, getp_T36, setd_T36, chkd_T36, zero_T36 },
    { "T37", 2, 0, (sizeof(struct T37__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T37, new_T37, setp_T37, getp_T37, setd_T37, chkd_T37, zero_T37 },
    { "T38", 3, 0, (sizeof(struct T38__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T38, new_T38, setp_T38, getp_T38, setd_T38, chkd_T38, zero_T38 },
    { "T39", 5, 0, (sizeof(struct T39__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T39, new_T39, setp_T39, getp_T39, setd_T39, chkd_T39, zero_T39 },
    { "T40", 12, 0, (sizeof(struct T40__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T40, new_T40, setp_T40, getp_T40, setd_T40, chkd_T40, zero_T40 },
    { "T41", 28, 0, (sizeof(struct T41__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T41, new_T41, setp_T41, getp_T41, setd_T41, chkd_T41, zero_T41 },
    { "T42", 29, 0, (sizeof(struct T42__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T42, new_T42, setp_T42, getp_T42, setd_T42, chkd_T42, zero_T42 },
    { "T43", 30, 0, (sizeof(struct T43__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T43, new_T43, setp_T43, getp_T43, setd_T43, chkd_T43, zero_T43 },
    { "T44", 31, 0, (sizeof(struct T44__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T44, new_T44, setp_T44, getp_T44, setd_T44, chkd_T44, zero_T44 },
    { "T45", 40, 0, (sizeof(struct T45__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T45, new_T45, setp_T45, getp_T45, setd_T45, chkd_T45, zero_T45 },
    { "T46", 59, 0, (sizeof(struct T46__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T46, new_T46, setp_T46, getp_T46, setd_T46, chkd_T46, zero_T46 },
    { "T47", 61, 0, (sizeof(struct T47__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T47, new_T47, setp_T47, getp_T47, setd_T47, chkd_T47, zero_T47 },
    { "T48", 2, 9, (sizeof(struct T48__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T48, new_T48, setp_T48, getp_T48, setd_T48, chkd_T48, zero_T48 },
    { "T49", 8, 1, (sizeof(struct T49__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T49, new_T49, setp_T49, getp_T49, setd_T49, chkd_T49, zero_T49 },
    { "T50", 18, 17, (sizeof(struct T50__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T50, new_T50, setp_T50, getp_T50, setd_T50, chkd_T50, zero_T50 },
    { "T51", 13, 29, (sizeof(struct T51__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T51, new_T51, setp_T51, getp_T51, setd_T51, chkd_T51, zero_T51 },
    { "T52", 16, 25, (sizeof(struct T52__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T52, new_T52, setp_T52, getp_T52, setd_T52, chkd_T52, zero_T52 },
    { "T53", 28, 68, (sizeof(struct T53__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T53, new_T53, setp_T53, getp_T53, setd_T53, chkd_T53, zero_T53 },
    { "T54", 26, 42, (sizeof(struct T54__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T54, new_T54, setp_T54, getp_T54, setd_T54, chkd_T54, zero_T54 },
    { "T55", 30, 65, (sizeof(struct T55__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T55, new_T55, setp_T55, getp_T55, setd_T55, chkd_T55, zero_T55 },
    { "T56", 26, 92, (sizeof(struct T56__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T56, new_T56, setp_T56, getp_T56, setd_T56, chkd_T56, zero_T56 },
    { "T57", 26, 69, (sizeof(struct T57__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T57, new_T57, setp_T57, getp_T57, setd_T57, chkd_T57, zero_T57 },
    { "T58", 26, 102, (sizeof(struct T58__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T58, new_T58, setp_T58, getp_T58, setd_T58, chkd_T58, zero_T58 },
    { "T59", 37, 82, (sizeof(struct T59__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T59, new_T59, setp_T59, getp_T59, setd_T59, chkd_T59, zero_T59 },
    { "T60", 28, 103, (sizeof(struct T60__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T60, new_T60, setp_T60, getp_T60, setd_T60, chkd_T60, zero_T60 },
    { "T61", 1, 54, (sizeof(struct T61__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T61, new_T61, setp_T61, getp_T61, setd_T61, chkd_T61, zero_T61 },
    { "T62", 1, 70, (sizeof(struct T62__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T62, new_T62, setp_T62, getp_T62, setd_T62, chkd_T62, zero_T62 },
    { "T63", 1, 146, (sizeof(struct T63__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T63, new_T63, setp_T63, getp_T63, setd_T63, chkd_T63, zero_T63 },
    { "T64", 2, 37, (sizeof(struct T64__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T64, new_T64, setp_T64, getp_T64, setd_T64, chkd_T64, zero_T64 },
    { "T65", 2, 53, (sizeof(struct T65__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T65, new_T65, setp_T65, getp_T65, setd_T65, chkd_T65, zero_T65 },
    { "T66", 2, 106, (sizeof(struct T66__ggggc_struct) + sizeof(size_t) - 1) / sizeof(size_t), off_T66, new_T66, setp_T66, getp_T66, setd_T66, chkd_T66, zero_T66 },
};
#define NT (sizeof(tinfo) / sizeof(tinfo[0]))
