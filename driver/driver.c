/* driver.c: the conformance driver.
 *
 * Interprets a line script; every public API call of SLIP_LU / AMD / COLAMD /
 * SuiteSparse_config becomes one JSON event, written when the call returns.
 * The events carry the complete projected state the specification talks about
 * (status, output objects in full, which of the previously live objects
 * changed, outstanding blocks of the user's memory functions, ...).
 *
 * Only public interfaces of the code under test are used.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <inttypes.h>
#include <math.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <signal.h>
#include <sys/types.h>
#include <sys/resource.h>
#include <errno.h>
#include <time.h>
#include "SLIP_LU.h"
#include "amd.h"
#include "colamd.h"

#if defined(__SANITIZE_ADDRESS__)
int __sanitizer_install_malloc_and_free_hooks(
    void (*mh)(const volatile void *, size_t), void (*fh)(const volatile void *));
#endif

/* ------------------------------------------------------------ tracking heap */
typedef struct { void *p ; size_t sz ; int owner ; } blk ;     /* owner 1=user fns, 2=driver */
static blk *tab ; static size_t tabcap, tabn, tabtomb ;
#define TOMB ((void*)1)
static size_t hsh (void *p) { uint64_t x = (uint64_t)(uintptr_t) p ; x ^= x >> 33 ; x *= 0xff51afd7ed558ccdULL ; x ^= x >> 33 ; return (size_t) x ; }
static volatile int in_tracker = 0, in_call = 0 ;
static void tabput (void *p, size_t sz, int owner) ;
static void tabgrow (void)
{
    blk *o = tab ; size_t oc = tabcap ;
    tabcap = tabcap ? tabcap * 2 : 4096 ; tab = calloc (tabcap, sizeof (blk)) ; tabn = 0 ; tabtomb = 0 ;
    for (size_t i = 0 ; i < oc ; i++) if (o[i].p && o[i].p != TOMB) tabput (o[i].p, o[i].sz, o[i].owner) ;
    free (o) ;
}
static void tabput (void *p, size_t sz, int owner)
{
    if ((tabn + tabtomb + 1) * 2 > tabcap) tabgrow () ;
    size_t i = hsh (p) & (tabcap - 1) ;
    while (tab[i].p && tab[i].p != TOMB) i = (i + 1) & (tabcap - 1) ;
    if (tab[i].p == TOMB) tabtomb-- ;
    tab[i].p = p ; tab[i].sz = sz ; tab[i].owner = owner ; tabn++ ;
}
static blk *tabget (void *p)
{
    if (!tabcap || !p || p == TOMB) return NULL ;
    size_t i = hsh (p) & (tabcap - 1) ;
    while (tab[i].p) { if (tab[i].p == p) return &tab[i] ; i = (i + 1) & (tabcap - 1) ; }
    return NULL ;
}
static void tabdel (blk *b) { b->p = TOMB ; tabn-- ; tabtomb++ ; }

static long live = 0, livebytes = 0 ;          /* user-function blocks outstanding */
static long c_na, c_nf, c_bad, c_dm, c_df ;    /* per call counters */
static char badmsg [256] ;
static int fmode = 0 ; static long fk = 0 ; static int c_fired = 0 ;
static size_t CAP = (size_t) 1 << 30 ;
static unsigned junk = 0xA5 ;
/* request log of the call */
typedef struct { char k ; size_t a, b ; int ok ; long id ; } rq ;
static rq rqs [400] ; static int nrq ;
static void logrq (char k, size_t a, size_t b, int ok) { if (nrq < 400) { rqs[nrq].k = k ; rqs[nrq].a = a ; rqs[nrq].b = b ; rqs[nrq].ok = ok ; } nrq++ ; }

static int refuse (size_t total)
{
    c_na++ ;
    if (fmode == 1 && c_na == fk) { c_fired++ ; return 1 ; }
    if (fmode == 2 && c_na >= fk) { c_fired++ ; return 1 ; }
    if (total > CAP) { c_fired++ ; return 1 ; }
    return 0 ;
}
static void *tr_malloc (size_t n)
{
    if (refuse (n)) { logrq ('m', n, 1, 0) ; return NULL ; }
    in_tracker++ ; void *p = malloc (n) ; in_tracker-- ;
    if (p) { blk *b ; in_tracker++ ; memset (p, junk, n) ;
        if ((b = tabget (p))) { c_bad++ ; snprintf (badmsg, sizeof badmsg, "block released behind the user's free") ; tabdel (b) ; live-- ; livebytes -= b->sz ; }
        tabput (p, n, 1) ; in_tracker-- ; live++ ; livebytes += n ; }
    logrq ('m', n, 1, p != NULL) ; return p ;
}
static void *tr_calloc (size_t a, size_t b)
{
    size_t t = a * b ; int ovf = (b && t / b != a) ;
    if (refuse (ovf ? (size_t) -1 : t)) { logrq ('c', a, b, 0) ; return NULL ; }
    in_tracker++ ; void *p = ovf ? NULL : calloc (1, t) ; in_tracker-- ;
    if (p) { blk *e ; in_tracker++ ;
        if ((e = tabget (p))) { c_bad++ ; snprintf (badmsg, sizeof badmsg, "block released behind the user's free") ; tabdel (e) ; live-- ; livebytes -= e->sz ; }
        tabput (p, t, 1) ; in_tracker-- ; live++ ; livebytes += t ; }
    logrq ('c', a, b, p != NULL) ; return p ;
}
static void tr_free (void *p)
{
    c_nf++ ;
    logrq ('f', 0, 0, 1) ;
    if (!p) { return ; }
    blk *b = tabget (p) ;
    if (!b || b->owner != 1) { c_bad++ ; snprintf (badmsg, sizeof badmsg, "user free of a block not obtained from the user's functions") ; return ; }
    live-- ; livebytes -= b->sz ; tabdel (b) ;
    in_tracker++ ; free (p) ; in_tracker-- ;
}
static void *tr_realloc (void *p, size_t n)
{
    if (refuse (n)) { logrq ('r', n, 0, 0) ; return NULL ; }
    logrq ('r', n, 0, 1) ;
    blk *b = p ? tabget (p) : NULL ;
    if (p && (!b || b->owner != 1)) { c_bad++ ; snprintf (badmsg, sizeof badmsg, "user realloc of a block not obtained from the user's functions") ; return NULL ; }
    in_tracker++ ;
    void *q = malloc (n) ;
    memset (q, junk, n) ;
    if (p) { memcpy (q, p, b->sz < n ? b->sz : n) ; live-- ; livebytes -= b->sz ; tabdel (b) ; free (p) ; }
    tabput (q, n, 1) ; live++ ; livebytes += n ;
    in_tracker-- ;
    return q ;
}
static void mhook (const volatile void *p, size_t n) { (void) p ; (void) n ; if (in_call && !in_tracker) c_dm++ ; }
static void fhook (const volatile void *p)
{
    if (!in_call || in_tracker) return ;
    blk *b = tabget ((void *) p) ;
    if (b && b->owner == 1) { c_bad++ ; snprintf (badmsg, sizeof badmsg, "block of the user's functions released with free") ; }
    c_df++ ;
}
/* driver-owned arrays handed to the library (exact size, so ASan sees any overrun) */
static void *dalloc (size_t n) { void *p = malloc (n) ; tabput (p, n, 2) ; return p ; }
static void dfree (void *p) { if (!p) return ; blk *b = tabget (p) ; if (b) tabdel (b) ; free (p) ; }
static long blksize (void *p) { blk *b = tabget (p) ; return b ? (long) b->sz : -1 ; }

/* ------------------------------------------------------------ output */
static int ofd = -1 ;
static char *ob ; static size_t on, oc ;
static void ojf (const char *f, ...)
{
    va_list a ;
    for (;;)
    {
        va_start (a, f) ; int k = vsnprintf (ob + on, oc - on, f, a) ; va_end (a) ;
        if (k >= 0 && (size_t) k < oc - on) { on += k ; return ; }
        oc = oc ? oc * 2 : 1 << 16 ; if ((size_t) k + on + 1 > oc) oc = on + k + 1024 ;
        ob = realloc (ob, oc) ;
    }
}
static void oflush (void)
{
    ojf ("}\n") ;
    size_t w = 0 ; while (w < on) { ssize_t k = write (ofd, ob + w, on - w) ; if (k <= 0) _exit (90) ; w += k ; }
    on = 0 ;
}
static void ostr (const char *s, size_t n)
{
    ojf ("\"") ;
    for (size_t i = 0 ; i < n ; i++)
    {
        unsigned char c = s[i] ;
        if (c == '"' || c == '\\') ojf ("\\%c", c) ;
        else if (c < 32 || c > 126) ojf ("\\u%04x", c) ;
        else ojf ("%c", c) ;
    }
    ojf ("\"") ;
}
/* captured print channel and stdout */
static char *pt ; static size_t ptn, ptc ; static long pcalls ;
static int cap_printf (const char *f, ...)
{
    va_list a ; int k ; pcalls++ ;
    in_tracker++ ;
    for (;;)
    {
        va_start (a, f) ; k = vsnprintf (pt + ptn, ptc - ptn, f, a) ; va_end (a) ;
        if (k < 0) break ;
        if ((size_t) k < ptc - ptn) { ptn += k ; break ; }
        ptc = ptc ? ptc * 2 : 1 << 14 ; if (ptn + k + 1 > ptc) ptc = ptn + k + 1024 ;
        pt = realloc (pt, ptc) ;
    }
    in_tracker-- ;
    return k ;
}
static long so_last = 0 ;
static long stdout_bytes (void)
{
    in_tracker++ ; fflush (stdout) ; in_tracker-- ;
    long e = (long) lseek (1, 0, SEEK_END) ; long d = e - so_last ; so_last = e ; return d ;
}

/* ------------------------------------------------------------ numbers to text */
static void o_limbs (const mp_limb_t *d, long n)
{
    while (n > 0 && d[n-1] == 0) n-- ;
    if (n == 0) { ojf ("0") ; return ; }
    ojf ("%lx", (unsigned long) d[n-1]) ;
    for (long i = n - 2 ; i >= 0 ; i--) ojf ("%016lx", (unsigned long) d[i]) ;
}
static int z_ok (const __mpz_struct *z)
{
    if (z->_mp_d == NULL) return 0 ;
    long s = labs ((long) z->_mp_size) ;
    if (s > z->_mp_alloc) return s == 0 ;
    if (s == 0) return 1 ;
    long b = blksize (z->_mp_d) ;
    if (b >= 0 && b < s * 8) return 0 ;
    if (b < 0) return 0 ;
    return 1 ;
}
static void o_mpz_raw (const __mpz_struct *z)
{
    if (z->_mp_size < 0) ojf ("-") ;
    o_limbs (z->_mp_d, labs ((long) z->_mp_size)) ;
}
static void o_mpz (const __mpz_struct *z) { if (!z_ok (z)) { ojf ("\"uninit\"") ; return ; } ojf ("\"#") ; o_mpz_raw (z) ; ojf ("\"") ; }
static void o_mpq (const __mpq_struct *q)
{
    if (!z_ok (&q->_mp_num) || !z_ok (&q->_mp_den)) { ojf ("\"uninit\"") ; return ; }
    ojf ("\"#") ; o_mpz_raw (&q->_mp_num) ; ojf ("/") ; o_mpz_raw (&q->_mp_den) ; ojf ("\"") ;
}
static void o_mpfr (mpfr_srcptr f)
{
    if (f->_mpfr_d == NULL || f->_mpfr_prec < 1) { ojf ("\"uninit\"") ; return ; }
    if (mpfr_nan_p (f)) { ojf ("\"nan\"") ; return ; }
    if (mpfr_inf_p (f)) { ojf (mpfr_sgn (f) > 0 ? "\"inf\"" : "\"-inf\"") ; return ; }
    if (mpfr_zero_p (f)) { ojf ("\"#0\"") ; return ; }
    long nl = (f->_mpfr_prec - 1) / 64 + 1 ;
    ojf ("\"#%s", f->_mpfr_sign < 0 ? "-" : "") ; o_limbs (f->_mpfr_d, nl) ;
    ojf ("p%ld\"", (long) f->_mpfr_exp - nl * 64) ;
}
static void o_dbl (double d)
{
    if (isnan (d)) { ojf ("\"nan\"") ; return ; }
    if (isinf (d)) { ojf (d > 0 ? "\"inf\"" : "\"-inf\"") ; return ; }
    if (d == 0) { ojf ("\"#0\"") ; return ; }
    uint64_t u ; memcpy (&u, &d, 8) ;
    uint64_t m = u & 0xfffffffffffffULL ; int e = (u >> 52) & 0x7ff ;
    if (e) m |= 1ULL << 52 ; else e = 1 ;
    ojf ("\"#%s%" PRIx64 "p%d\"", (u >> 63) ? "-" : "", m, e - 1075) ;
}

/* ------------------------------------------------------------ objects */
#define NM 64
static SLIP_matrix *M [NM] ; static SLIP_matrix Mstash [NM] ; static int Mst [NM] ;
typedef struct { int64_t *at ; int64_t v ; } undo ;
static undo Mundo [NM][8] ; static int Mnu [NM] ;
static SLIP_LU_analysis *S [16] ; static int64_t Sn [16] ;
static int64_t *P [16] ; static int64_t Pn [16] ;
static SLIP_options *O [16] ;
#define NZ 32
static mpz_t gz [NZ] ; static int gzi [NZ] ;
static mpq_t gq [NZ] ; static int gqi [NZ] ;
static mpfr_t gf [NZ] ; static int gfi [NZ] ;
static void *B [16] ; static size_t Bs [16] ; static unsigned char Bpat [16] ;
static void *uarr [1024] ; static int nuarr ;

static uint64_t H ;
static void hb (const void *p, size_t n) { const unsigned char *c = p ; for (size_t i = 0 ; i < n ; i++) { H ^= c[i] ; H *= 1099511628211ULL ; } }
static void hblk (const void *p, long want)
{
    if (!p) { hb ("0", 1) ; return ; }
    long b = blksize ((void *) p) ; if (b < 0) { hb ("?", 1) ; return ; }
    if (want >= 0 && want < b) b = want ;
    hb (p, b) ;
}
static void hz (const __mpz_struct *z) { hb (&z->_mp_size, 4) ; if (z_ok (z)) hb (z->_mp_d, 8 * labs ((long) z->_mp_size)) ; }
static int64_t xcap (const SLIP_matrix *A)
{
    if (!A->x.mpz || A->type < 0 || A->type > 4) return 0 ;
    static const size_t es [] = { sizeof (mpz_t), sizeof (mpq_t), sizeof (mpfr_t), 8, 8 } ;
    long b = blksize (A->x.mpz) ; return b < 0 ? 0 : b / (long) es [A->type] ;
}
static int64_t rawnnz (const SLIP_matrix *A)
{
    int64_t v = 0 ;
    if (A->kind == SLIP_CSC) { long b = blksize (A->p) ; if (A->n >= 0 && b >= 0 && A->n < b / 8) v = A->p [A->n] ; }
    else if (A->kind == SLIP_TRIPLET) v = A->nz ;
    else if (A->m >= 0 && A->n >= 0) v = A->m * A->n ;
    return v < 0 ? 0 : v ;
}
static uint64_t rawdig_m (SLIP_matrix *A)
{
    H = 1469598103934665603ULL ;
    hb (A, offsetof (SLIP_matrix, scale)) ;
    hz (&A->scale->_mp_num) ; hz (&A->scale->_mp_den) ;
    hblk (A->p, -1) ; hblk (A->i, -1) ; hblk (A->j, -1) ; hblk (A->x.mpz, -1) ;
    int64_t c = xcap (A), z = rawnnz (A) ; if (z < c) c = z ;
    for (int64_t k = 0 ; k < c ; k++)
    {
        if (A->type == SLIP_MPZ) hz (A->x.mpz[k]) ;
        else if (A->type == SLIP_MPQ) { hz (&A->x.mpq[k]->_mp_num) ; hz (&A->x.mpq[k]->_mp_den) ; }
        else if (A->type == SLIP_MPFR) { mpfr_srcptr f = A->x.mpfr[k] ; if (f->_mpfr_d && f->_mpfr_prec > 0) hb (f->_mpfr_d, 8 * ((f->_mpfr_prec - 1) / 64 + 1)) ; }
    }
    return H ;
}
static uint64_t rawdig_s (SLIP_LU_analysis *s) { H = 77 ; hb (s, sizeof *s) ; hblk (s->q, -1) ; return H ; }
static uint64_t rawdig_p (int64_t *p) { H = 78 ; hblk (p, -1) ; return H ; }
static uint64_t rawdig_o (SLIP_options *o) { H = 79 ; hb (o, sizeof *o) ; return H ; }
static uint64_t rawdig_z (int i) { H = 80 ; hz (gz[i]) ; return H ; }
static uint64_t rawdig_q (int i) { H = 81 ; hz (&gq[i]->_mp_num) ; hz (&gq[i]->_mp_den) ; return H ; }
static uint64_t rawdig_f (int i) { H = 82 ; hb (&gf[i]->_mpfr_prec, 8) ; hb (&gf[i]->_mpfr_sign, 4) ; hb (&gf[i]->_mpfr_exp, 8) ; if (gf[i]->_mpfr_d && !mpfr_zero_p (gf[i]) && !mpfr_nan_p (gf[i]) && !mpfr_inf_p (gf[i])) hb (gf[i]->_mpfr_d, 8 * ((gf[i]->_mpfr_prec - 1) / 64 + 1)) ; return H ; }

enum { KM = 0, KS = NM, KP = KS + 16, KO = KP + 16, KZ = KO + 16, KQ = KZ + NZ, KF = KQ + NZ, KB = KF + NZ, KN = KB + 16 } ;
static uint64_t pre [KN], post [KN] ;
static void digall (uint64_t *d)
{
    memset (d, 0, sizeof pre) ;
    for (int i = 0 ; i < NM ; i++) if (M[i]) d [KM+i] = rawdig_m (M[i]) | 1 ;
    for (int i = 0 ; i < 16 ; i++) { if (S[i]) d [KS+i] = rawdig_s (S[i]) | 1 ; if (P[i]) d [KP+i] = rawdig_p (P[i]) | 1 ; if (O[i]) d [KO+i] = rawdig_o (O[i]) | 1 ; if (B[i]) { H = 90 ; hblk (B[i], -1) ; d [KB+i] = H | 1 ; } }
    for (int i = 0 ; i < NZ ; i++) { if (gzi[i]) d [KZ+i] = rawdig_z (i) | 1 ; if (gqi[i]) d [KQ+i] = rawdig_q (i) | 1 ; if (gfi[i]) d [KF+i] = rawdig_f (i) | 1 ; }
}
static void kname (int k, char *b)
{
    if (k < KS) sprintf (b, "M%d", k) ; else if (k < KP) sprintf (b, "S%d", k-KS) ; else if (k < KO) sprintf (b, "P%d", k-KP) ;
    else if (k < KZ) sprintf (b, "O%d", k-KO) ; else if (k < KQ) sprintf (b, "z%d", k-KZ) ; else if (k < KF) sprintf (b, "q%d", k-KQ) ;
    else if (k < KB) sprintf (b, "f%d", k-KF) ; else sprintf (b, "B%d", k-KB) ;
}

/* ------------------------------------------------------------ dumps */
static void o_i64s (const int64_t *a, int64_t n) { ojf ("[") ; for (int64_t k = 0 ; k < n ; k++) ojf ("%s%" PRId64, k ? "," : "", a[k]) ; ojf ("]") ; }
static int64_t icap (int64_t *a) { long b = a ? blksize (a) : 0 ; return b < 0 ? -1 : b / 8 ; }
#define MIN(a,b) ((a)<(b)?(a):(b))
#define MAX(a,b) ((a)>(b)?(a):(b))
static int shallow_dump = 0 ;
static void dump_m (const SLIP_matrix *A, int novals)
{
    int64_t z = rawnnz (A), cp = icap (A->p), ci = icap (A->i), cj = icap (A->j), cx = xcap (A) ;
    ojf ("{\"kind\":%d,\"type\":%d,\"m\":%" PRId64 ",\"n\":%" PRId64 ",\"nzmax\":%" PRId64 ",\"nz\":%" PRId64,
        (int) A->kind, (int) A->type, A->m, A->n, A->nzmax, A->nz) ;
    ojf (",\"hp\":%d,\"hi\":%d,\"hj\":%d,\"hx\":%d", A->p != NULL, A->i != NULL, A->j != NULL, A->x.mpz != NULL) ;
    ojf (",\"sp\":%d,\"si\":%d,\"sj\":%d,\"sx\":%d", A->p_shallow != 0, A->i_shallow != 0, A->j_shallow != 0, A->x_shallow != 0) ;
    ojf (",\"cp\":%" PRId64 ",\"ci\":%" PRId64 ",\"cj\":%" PRId64 ",\"cx\":%" PRId64, cp, ci, cj, cx) ;
    ojf (",\"p\":") ; o_i64s (A->p, A->p && A->n >= 0 && cp >= 0 ? MIN (cp, A->n + 1) : 0) ;
    ojf (",\"i\":") ; o_i64s (A->i, A->i && ci >= 0 ? MIN (ci, z) : 0) ;
    ojf (",\"j\":") ; o_i64s (A->j, A->j && cj >= 0 ? MIN (cj, z) : 0) ;
    ojf (",\"x\":[") ;
    int64_t k, c = novals ? 0 : MIN (cx, z) ;
    long xp = 0 ;
    for (k = 0 ; k < c ; k++)
    {
        if (k) ojf (",") ;
        switch ((int) A->type)
        {
            case SLIP_MPZ: o_mpz (A->x.mpz[k]) ; break ;
            case SLIP_MPQ: o_mpq (A->x.mpq[k]) ; break ;
            case SLIP_MPFR: o_mpfr (A->x.mpfr[k]) ; { long pr = A->x.mpfr[k]->_mpfr_prec ; xp = k == 0 ? pr : (xp == pr ? xp : -1) ; } break ;
            case SLIP_INT64: ojf ("\"%" PRId64 "\"", A->x.int64[k]) ; break ;
            case SLIP_FP64: o_dbl (A->x.fp64[k]) ; break ;
        }
    }
    ojf ("],\"xp\":%ld", xp) ;
    /* all allocated value slots: initialised? zero? precision? (for Allocate) */
    if (shallow_dump)
    {
        int ini = 1, zero = 1 ; long pr0 = 0 ;
        for (k = 0 ; k < cx ; k++)
        {
            switch ((int) A->type)
            {
                case SLIP_MPZ: if (!z_ok (A->x.mpz[k])) ini = 0 ; else if (A->x.mpz[k]->_mp_size) zero = 0 ; break ;
                case SLIP_MPQ: if (!z_ok (&A->x.mpq[k]->_mp_num) || !z_ok (&A->x.mpq[k]->_mp_den)) ini = 0 ;
                    else if (A->x.mpq[k]->_mp_num._mp_size || A->x.mpq[k]->_mp_den._mp_size != 1 || A->x.mpq[k]->_mp_den._mp_d[0] != 1) zero = 0 ; break ;
                case SLIP_MPFR: { mpfr_srcptr f = A->x.mpfr[k] ; if (!f->_mpfr_d || f->_mpfr_prec < 1 || blksize ((char *) f->_mpfr_d - 8) < 8 * ((f->_mpfr_prec - 1) / 64 + 1) + 8) ini = 0 ; else { if (!mpfr_zero_p (f) && !mpfr_nan_p (f)) zero = 0 ; pr0 = k == 0 ? f->_mpfr_prec : (pr0 == f->_mpfr_prec ? pr0 : -1) ; } } break ;
                case SLIP_INT64: if (A->x.int64[k]) zero = 0 ; break ;
                case SLIP_FP64: if (A->x.fp64[k] != 0) zero = 0 ; break ;
            }
        }
        int iz = 1 ;
        for (k = 0 ; k < cp ; k++) if (A->p[k]) iz = 0 ;
        for (k = 0 ; k < ci ; k++) if (A->i[k]) iz = 0 ;
        for (k = 0 ; k < cj ; k++) if (A->j[k]) iz = 0 ;
        ojf (",\"xinit\":%d,\"xzero\":%d,\"xprec\":%ld,\"izero\":%d", ini, zero, pr0, iz) ;
    }
    ojf (",\"scale\":") ; o_mpq (A->scale) ;
    ojf ("}") ;
}
/* pointer disjointness of a result from all other live matrices */
static int shares (int t)
{
    for (int i = 0 ; i < NM ; i++) if (i != t && M[i] && M[t])
    {
        SLIP_matrix *a = M[t], *b = M[i] ;
        if (a == b) return 1 ;
        if (a->p && a->p == b->p) return 1 ;
        if (a->i && a->i == b->i) return 1 ;
        if (a->j && a->j == b->j) return 1 ;
        if (a->x.mpz && a->x.mpz == b->x.mpz) return 1 ;
        if (a->scale->_mp_num._mp_d && a->scale->_mp_num._mp_d == b->scale->_mp_num._mp_d && a->scale->_mp_num._mp_alloc) return 1 ;
        /* values */
        if (a->type == b->type && a->type <= SLIP_MPQ)
        {
            int64_t ca = MIN (xcap (a), rawnnz (a)), cb = MIN (xcap (b), rawnnz (b)) ;
            for (int64_t k = 0 ; k < MIN (ca, 200) ; k++) for (int64_t l = 0 ; l < MIN (cb, 200) ; l++)
            {
                void *u = a->type == SLIP_MPZ ? (void *) a->x.mpz[k]->_mp_d : (void *) a->x.mpq[k]->_mp_num._mp_d ;
                void *v = b->type == SLIP_MPZ ? (void *) b->x.mpz[l]->_mp_d : (void *) b->x.mpq[l]->_mp_num._mp_d ;
                int ua = a->type == SLIP_MPZ ? a->x.mpz[k]->_mp_alloc : a->x.mpq[k]->_mp_num._mp_alloc ;
                if (u && u == v && ua) return 1 ;
            }
        }
    }
    return 0 ;
}

/* ------------------------------------------------------------ call bracket */
static int printf_null = 0 ;
static int use_user = 1 ;
static void BEG (void)
{
    digall (pre) ;
    c_na = c_nf = c_bad = c_dm = c_df = 0 ; c_fired = 0 ; badmsg[0] = 0 ; nrq = 0 ; ptn = 0 ; pcalls = 0 ;
    SuiteSparse_config.printf_func = printf_null ? NULL : cap_printf ;
    stdout_bytes () ;
    in_call = 1 ;
}
static void END (void) { in_call = 0 ; }
static const char *curline ; static int lineno ; static char sid [128] ; static int seqno ;
static int wantrq = 0 ; static int expst = 99 ;
static void TAIL (int opt)
{
    long so = stdout_bytes () ;
    ojf (",\"sc\":\"%s\",\"sq\":%d,\"ln\":%d", sid, seqno++, lineno) ;
    ojf (",\"live\":%ld,\"na\":%ld,\"nf\":%ld,\"fired\":%d,\"bad\":%ld,\"dm\":%ld,\"so\":%ld,\"pc\":%ld", live, c_na, c_nf, c_fired, c_bad, c_dm, so, pcalls) ;
    ojf (",\"armed\":%d,\"pn\":%d,\"exp\":%d", fmode, printf_null, expst) ; expst = 99 ;
    if (c_bad) { ojf (",\"badmsg\":") ; ostr (badmsg, strlen (badmsg)) ; }
    ojf (",\"cfg\":%d", !use_user || (SuiteSparse_config.malloc_func == tr_malloc && SuiteSparse_config.calloc_func == tr_calloc && SuiteSparse_config.realloc_func == tr_realloc && SuiteSparse_config.free_func == tr_free
        && SuiteSparse_config.printf_func == (printf_null ? NULL : cap_printf))) ;
    digall (post) ;
    ojf (",\"chg\":[") ; int first = 1 ; char b [16] ;
    for (int k = 0 ; k < KN ; k++) if (pre[k] && post[k] && pre[k] != post[k]) { kname (k, b) ; ojf ("%s\"%s\"", first ? "" : ",", b) ; first = 0 ; }
    ojf ("],\"gone\":[") ; first = 1 ;
    for (int k = 0 ; k < KN ; k++) if (pre[k] && !post[k]) { kname (k, b) ; ojf ("%s\"%s\"", first ? "" : ",", b) ; first = 0 ; }
    ojf ("],\"new\":[") ; first = 1 ;
    for (int k = 0 ; k < KN ; k++) if (!pre[k] && post[k]) { kname (k, b) ; ojf ("%s\"%s\"", first ? "" : ",", b) ; first = 0 ; }
    ojf ("]") ;
    if (wantrq)
    {
        ojf (",\"rq\":[") ;
        for (int k = 0 ; k < MIN (nrq, 400) ; k++) ojf ("%s[\"%c\",\"%zu\",\"%zu\",%d]", k ? "," : "", rqs[k].k, rqs[k].a, rqs[k].b, rqs[k].ok) ;
        ojf ("]") ;
    }
    ojf (",\"txt\":") ; ostr (pt ? pt : "", MIN (ptn, (size_t) 60000)) ;
    if (opt >= -1)
    {
        if (opt < 0) ojf (",\"o\":\"-\",\"opt\":{\"pivot\":3,\"order\":1,\"tol\":\"#1p0\",\"print\":0,\"prec\":128,\"round\":0,\"check\":0}") ;
        else { SLIP_options *o = O[opt] ; ojf (",\"o\":\"O%d\",\"opt\":{\"pivot\":%d,\"order\":%d,\"tol\":", opt, (int) o->pivot, (int) o->order) ; o_dbl (o->tol) ;
            ojf (",\"print\":%d,\"prec\":%d,\"round\":%d,\"check\":%d}", o->print_level, o->prec, (int) o->round, (int) o->check) ; }
    }
    oflush () ;
    fmode = 0 ;
}

/* ------------------------------------------------------------ script reading */
static char *tok [1 << 18] ; static int ntok, tk ;
static char *T (void) { return tk < ntok ? tok [tk++] : "0" ; }
static int64_t TI (void) { return strtoll (T (), NULL, 0) ; }
static uint64_t TU (void) { char *t = T () ; return strtoull (t, NULL, 0) ; }
static int slot (char *t) { return t[0] == '-' ? -1 : atoi (t + 1) ; }
static double TD (void)
{
    char *t = T () ;
    if (!strcmp (t, "nan")) return NAN ; if (!strcmp (t, "inf")) return INFINITY ; if (!strcmp (t, "-inf")) return -INFINITY ;
    return strtod (t, NULL) ;
}
static SLIP_matrix *sent = (SLIP_matrix *) 0xdead1000 ;

static int setval (SLIP_matrix *A, int64_t k, char *t)
{
    switch ((int) A->type)
    {
        case SLIP_MPZ: return mpz_set_str (A->x.mpz[k], t, 10) ;
        case SLIP_MPQ: { int r = mpq_set_str (A->x.mpq[k], t, 10) ; return r ; }
        case SLIP_MPFR:
            if (!strcmp (t, "nan")) mpfr_set_nan (A->x.mpfr[k]) ; else if (!strcmp (t, "inf")) mpfr_set_inf (A->x.mpfr[k], 1) ; else if (!strcmp (t, "-inf")) mpfr_set_inf (A->x.mpfr[k], -1) ;
            else mpfr_set_str (A->x.mpfr[k], t, 16, MPFR_RNDN) ; return 0 ;
        case SLIP_INT64: A->x.int64[k] = strtoll (t, NULL, 10) ; return 0 ;
        case SLIP_FP64: A->x.fp64[k] = !strcmp (t, "nan") ? NAN : !strcmp (t, "inf") ? INFINITY : !strcmp (t, "-inf") ? -INFINITY : strtod (t, NULL) ; return 0 ;
    }
    return 1 ;
}
static int opt_prec = 128 ;
static void forget_m (int s) { M[s] = NULL ; Mst[s] = 0 ; Mnu[s] = 0 ; }

static void cmd_mat (int shallow)
{
    /* mat Mx kind type m n nzmax nz prec scale <pattern> <values> */
    int s = slot (T ()) ; int kind = TI (), type = TI () ; int64_t m = TI (), n = TI (), nzmax = TI (), nz = TI () ; int prec = TI () ; char *scale = T () ;
    SLIP_options lo ; memset (&lo, 0, sizeof lo) ; lo.prec = prec ; lo.order = SLIP_COLAMD ;
    digall (pre) ; c_na = c_nf = c_bad = c_dm = c_fired = 0 ; nrq = 0 ; ptn = 0 ; fmode = 0 ;
    SLIP_matrix *A = NULL ;
    SLIP_info r = SLIP_matrix_allocate (&A, kind, type, m, n, nzmax, shallow, true, &lo) ;
    if (r == SLIP_OK && A)
    {
        if (shallow)
        {
            int64_t nx = MAX (nzmax, 1) ;
            if (kind == SLIP_CSC) { A->p = dalloc ((n+1) * 8) ; uarr[nuarr++] = A->p ; memset (A->p, 0, (n+1) * 8) ; }
            if (kind != SLIP_DENSE) { A->i = dalloc (nx * 8) ; uarr[nuarr++] = A->i ; memset (A->i, 0, nx * 8) ; }
            if (kind == SLIP_TRIPLET) { A->j = dalloc (nx * 8) ; uarr[nuarr++] = A->j ; memset (A->j, 0, nx * 8) ; }
            if (kind == SLIP_DENSE) nx = MAX (m * n, 1) ;
            A->x.int64 = dalloc (nx * 8) ; uarr[nuarr++] = A->x.int64 ; memset (A->x.int64, 0, nx * 8) ;
        }
        int64_t k, cnt = kind == SLIP_DENSE ? m * n : nz ;
        if (kind == SLIP_CSC) for (k = 0 ; k <= n ; k++) A->p[k] = TI () ;
        if (kind != SLIP_DENSE) for (k = 0 ; k < nz ; k++) A->i[k] = TI () ;
        if (kind == SLIP_TRIPLET) { for (k = 0 ; k < nz ; k++) A->j[k] = TI () ; }
        A->nz = nz ;
        for (k = 0 ; k < cnt ; k++) if (setval (A, k, T ())) { fprintf (stderr, "bad value\n") ; _exit (91) ; }
        mpq_set_str (A->scale, scale, 10) ;
    }
    M[s] = A ;
    ojf ("{\"ev\":\"Mat\",\"d\":\"M%d\",\"st\":%d,\"out\":", s, r) ;
    if (A) dump_m (A, 0) ; else ojf ("{}") ;
    TAIL (-2) ;
}
static void cmd_alias (void)
{
    /* alias Md Ms: shallow view of Ms */
    int d = slot (T ()), s = slot (T ()) ;
    digall (pre) ; c_na = c_nf = c_bad = c_dm = c_fired = 0 ; nrq = 0 ; ptn = 0 ; fmode = 0 ;
    SLIP_matrix *A = NULL, *b = M[s] ;
    SLIP_info r = SLIP_matrix_allocate (&A, b->kind, b->type, b->m, b->n, b->nzmax, true, true, NULL) ;
    if (A) { A->p = b->p ; A->i = b->i ; A->j = b->j ; A->x = b->x ; A->nz = b->nz ; mpq_set (A->scale, b->scale) ; }
    M[d] = A ;
    ojf ("{\"ev\":\"Mat\",\"d\":\"M%d\",\"st\":%d,\"out\":", d, r) ; if (A) dump_m (A, 0) ; else ojf ("{}") ; TAIL (-2) ;
}
static void cmd_lend (void)
{
    /* lend Mx mask: the parts of the mask (1 p, 2 i, 4 j, 8 x of int64 or double) become the caller's */
    int s = slot (T ()) ; int mask = TI () ; SLIP_matrix *A = M[s] ;
    if (!A) return ;
    digall (pre) ; c_na = c_nf = c_bad = c_dm = c_fired = 0 ; nrq = 0 ; ptn = 0 ; fmode = 0 ;
    int64_t nx = MAX (A->nzmax, 1) ; void *q ;
#define LEND(bit,fld,sh,count) if ((mask & bit) && A->fld && !A->sh) { q = dalloc ((count) * 8) ; uarr[nuarr++] = q ; memcpy (q, A->fld, (count) * 8) ; SLIP_FREE (A->fld) ; A->fld = q ; A->sh = true ; }
    LEND (1, p, p_shallow, A->n + 1) LEND (2, i, i_shallow, nx) LEND (4, j, j_shallow, nx)
    if (A->type == SLIP_INT64 || A->type == SLIP_FP64) LEND (8, x.int64, x_shallow, nx)
    ojf ("{\"ev\":\"Mat\",\"d\":\"M%d\",\"st\":0,\"out\":", s) ; dump_m (A, 0) ; TAIL (-2) ;
}
static void cmd_corrupt (void)
{
    /* corrupt Mx field [k] value */
    int s = slot (T ()) ; SLIP_matrix *A = M[s] ; char *f = T () ;
    if (!A) return ;
    digall (pre) ; c_na = c_nf = c_bad = c_dm = c_fired = 0 ; nrq = 0 ; ptn = 0 ; fmode = 0 ;
    if (!Mst[s]) { Mstash[s] = *A ; Mst[s] = 1 ; Mnu[s] = 0 ; }
    int64_t *a = NULL ; int64_t k ;
    if (!strcmp (f, "m")) A->m = TI () ; else if (!strcmp (f, "n")) A->n = TI () ; else if (!strcmp (f, "nzmax")) A->nzmax = TI () ;
    else if (!strcmp (f, "nz")) A->nz = TI () ; else if (!strcmp (f, "kind")) A->kind = TI () ; else if (!strcmp (f, "type")) A->type = TI () ;
    else if (!strcmp (f, "pnull")) A->p = NULL ; else if (!strcmp (f, "inull")) A->i = NULL ; else if (!strcmp (f, "jnull")) A->j = NULL ; else if (!strcmp (f, "xnull")) A->x.mpz = NULL ;
    else
    {
        k = TI () ; a = f[0] == 'p' ? A->p : f[0] == 'i' ? A->i : A->j ;
        if (a && k >= 0 && k < icap (a)) { if (Mnu[s] < 8) { Mundo[s][Mnu[s]].at = a + k ; Mundo[s][Mnu[s]++].v = a[k] ; } a[k] = TI () ; }
    }
    ojf ("{\"ev\":\"Mat\",\"corrupt\":1,\"d\":\"M%d\",\"st\":0,\"out\":", s) ; dump_m (A, 0) ; TAIL (-2) ;
}
static void cmd_restore (void)
{
    int s = slot (T ()) ; if (!M[s] || !Mst[s]) return ;
    digall (pre) ; c_na = c_nf = c_bad = c_dm = c_fired = 0 ; nrq = 0 ; ptn = 0 ; fmode = 0 ;
    for (int u = Mnu[s] - 1 ; u >= 0 ; u--) *Mundo[s][u].at = Mundo[s][u].v ;
    *M[s] = Mstash[s] ; Mst[s] = 0 ; Mnu[s] = 0 ;
    ojf ("{\"ev\":\"Mat\",\"corrupt\":2,\"d\":\"M%d\",\"st\":0,\"out\":", s) ; dump_m (M[s], 0) ; TAIL (-2) ;
}
/* handle bookkeeping: returns 0 (NULL), 1 (object), 2 (handle untouched) */
static int hcode (void *p) { return p == NULL ? 0 : p == (void *) sent ? 2 : 1 ; }

static void out_m (int s, int h, const char *nm)
{
    if (h == 1) { ojf (",\"%s\":", nm) ; dump_m (M[s], 0) ; ojf (",\"sh_%s\":%d", nm, shares (s)) ; }
}
static void dump_s (int s, int64_t n)
{
    int64_t c = icap (S[s]->q) ;
    ojf ("{\"q\":") ; o_i64s (S[s]->q, S[s]->q && c >= n ? n : 0) ;
    ojf (",\"cq\":%" PRId64 ",\"lnz\":%" PRId64 ",\"unz\":%" PRId64 "}", c, S[s]->lnz, S[s]->unz) ;
}

static void cmd_alloc (void)
{
    char *h = T () ; int s = slot (h) ; int64_t kind = TI (), type = TI (), m = TI (), n = TI (), nzmax = TI () ; int sh = TI (), in = TI () ; int o = slot (T ()) ;
    SLIP_matrix *A = sent ;
    BEG () ; SLIP_info r = SLIP_matrix_allocate (s < 0 ? NULL : &A, (SLIP_kind) kind, (SLIP_type) type, m, n, nzmax, sh, in, o < 0 ? NULL : O[o]) ; END () ;
    int hc = s < 0 ? 0 : hcode (A) ; if (s >= 0) M[s] = hc == 1 ? A : NULL ;
    ojf ("{\"ev\":\"Alloc\",\"d\":\"%s\",\"kind\":%" PRId64 ",\"type\":%" PRId64 ",\"m\":%" PRId64 ",\"n\":%" PRId64 ",\"nzmax\":%" PRId64 ",\"shal\":%d,\"init\":%d,\"st\":%d,\"h\":%d", h, kind, type, m, n, nzmax, sh, in, r, hc) ;
    shallow_dump = 1 ; if (hc == 1) { ojf (",\"out\":") ; dump_m (A, !in) ; ojf (",\"share\":%d", shares (s)) ; } shallow_dump = 0 ;
    TAIL (o) ;
}
static void cmd_free (void)
{
    char *h = T () ; int s = slot (h) ; int o = slot (T ()) ;
    SLIP_matrix *A = s < 0 ? NULL : M[s] ; int had = A != NULL ;
    /* own array addresses, to see which were released */
    void *ow [4] = { 0, 0, 0, 0 } ; int shf [4] = { 0, 0, 0, 0 } ;
    if (A) { ow[0] = A->p ; ow[1] = A->i ; ow[2] = A->j ; ow[3] = A->x.mpz ; shf[0] = A->p_shallow ; shf[1] = A->i_shallow ; shf[2] = A->j_shallow ; shf[3] = A->x_shallow ; }
    BEG () ; SLIP_info r = SLIP_matrix_free (s < 0 ? NULL : &A, o < 0 ? NULL : O[o]) ; END () ;
    int h2 = A != NULL ;
    int leftown = 0, lostsh = 0 ;
    for (int k = 0 ; k < 4 ; k++) if (ow[k]) { int al = tabget (ow[k]) != NULL ; if (!shf[k] && al) leftown = 1 ; if (shf[k] && !al) lostsh = 1 ; }
    if (s >= 0) { if (!A) forget_m (s) ; else M[s] = A ; }
    ojf ("{\"ev\":\"MFree\",\"d\":\"%s\",\"had\":%d,\"st\":%d,\"h\":%d,\"leftown\":%d,\"lostsh\":%d", h, had, r, h2, leftown, lostsh) ; TAIL (o) ;
}
static void cmd_nnz (void)
{
    char *h = T () ; int s = slot (h) ; int o = slot (T ()) ;
    BEG () ; int64_t r = SLIP_matrix_nnz (s < 0 ? NULL : M[s], o < 0 ? NULL : O[o]) ; END () ;
    ojf ("{\"ev\":\"Nnz\",\"a\":\"%s\",\"st\":0,\"ret\":%" PRId64, h, r) ; TAIL (o) ;
}
static void cmd_check (void)
{
    char *h = T () ; int s = slot (h) ; int o = slot (T ()) ;
    BEG () ; SLIP_info r = SLIP_matrix_check (s < 0 ? NULL : M[s], o < 0 ? NULL : O[o]) ; END () ;
    ojf ("{\"ev\":\"Check\",\"a\":\"%s\",\"st\":%d", h, r) ; TAIL (o) ;
}
static void cmd_copy (void)
{
    char *h = T () ; int d = slot (h) ; int64_t kind = TI (), type = TI () ; char *a = T () ; int s = slot (a) ; int o = slot (T ()) ;
    SLIP_matrix *C = sent ;
    BEG () ; SLIP_info r = SLIP_matrix_copy (d < 0 ? NULL : &C, (SLIP_kind) kind, (SLIP_type) type, s < 0 ? NULL : M[s], o < 0 ? NULL : O[o]) ; END () ;
    int hc = d < 0 ? 0 : hcode (C) ; if (d >= 0) M[d] = hc == 1 ? C : NULL ;
    ojf ("{\"ev\":\"Copy\",\"d\":\"%s\",\"kind\":%" PRId64 ",\"type\":%" PRId64 ",\"a\":\"%s\",\"st\":%d,\"h\":%d", h, kind, type, a, r, hc) ;
    out_m (d, hc, "out") ; TAIL (o) ;
}
/* told by amd_2 (built with SLIP_VERIF_HOOKS) about every pivot */
static long *piv_v ; static long piv_n, piv_cap ;
void slip_verif_pivot (long me) { if (piv_n < piv_cap) piv_v [piv_n++] = me ; }
static void piv_begin (int64_t n) { piv_cap = MAX (n, 1) ; piv_v = malloc (piv_cap * sizeof (long)) ; piv_n = 0 ; }
static void piv_end (void)
{
    ojf (",\"piv\":[") ; for (long k = 0 ; k < piv_n ; k++) ojf ("%s%ld", k ? "," : "", piv_v[k]) ; ojf ("]") ; free (piv_v) ; piv_v = NULL ; piv_cap = piv_n = 0 ;
}
static void cmd_analyze (void)
{
    char *h = T () ; int d = slot (h) ; char *a = T () ; int s = slot (a) ; int o = slot (T ()) ;
    SLIP_LU_analysis *X = (void *) sent ;
    piv_begin (s < 0 || !M[s] ? 0 : M[s]->n > 100000 ? 0 : M[s]->n) ;
    BEG () ; SLIP_info r = SLIP_LU_analyze (d < 0 ? NULL : &X, s < 0 ? NULL : M[s], o < 0 ? NULL : O[o]) ; END () ;
    int hc = d < 0 ? 0 : hcode (X) ; if (d >= 0) S[d] = hc == 1 ? X : NULL ;
    if (hc == 1) Sn[d] = M[s] ? M[s]->n : 0 ;
    ojf ("{\"ev\":\"Analyze\",\"d\":\"%s\",\"a\":\"%s\",\"st\":%d,\"h\":%d", h, a, r, hc) ;
    if (hc == 1) { ojf (",\"out\":") ; dump_s (d, Sn[d]) ; }
    piv_end () ; TAIL (o) ;
}
static void cmd_afree (void)
{
    char *h = T () ; int d = slot (h) ; int o = slot (T ()) ; int had = d >= 0 && S[d] ;
    void *q = had ? S[d]->q : NULL ;
    SLIP_LU_analysis *X = d < 0 ? NULL : S[d] ;
    BEG () ; SLIP_info r = SLIP_LU_analysis_free (d < 0 ? NULL : &X, o < 0 ? NULL : O[o]) ; END () ;
    if (d >= 0) S[d] = X ;
    ojf ("{\"ev\":\"AFree\",\"d\":\"%s\",\"had\":%d,\"st\":%d,\"h\":%d,\"leftown\":%d", h, had, r, X != NULL, q && tabget (q) != NULL) ; TAIL (o) ;
}
static void cmd_factor (void)
{
    char *l = T (), *u = T (), *rr = T (), *p = T (), *a = T (), *ss = T () ; int o = slot (T ()) ;
    int L = slot (l), U = slot (u), R = slot (rr), PV = slot (p), A = slot (a), X = slot (ss) ;
    SLIP_matrix *ml = sent, *mu = sent, *mr = sent ; int64_t *pv = (void *) sent ;
    BEG () ;
    SLIP_info r = SLIP_LU_factorize (L < 0 ? NULL : &ml, U < 0 ? NULL : &mu, R < 0 ? NULL : &mr, PV < 0 ? NULL : &pv,
        A < 0 ? NULL : M[A], X < 0 ? NULL : S[X], o < 0 ? NULL : O[o]) ;
    END () ;
    int hl = L < 0 ? 0 : hcode (ml), hu = U < 0 ? 0 : hcode (mu), hr = R < 0 ? 0 : hcode (mr), hp = PV < 0 ? 0 : hcode (pv) ;
    if (L >= 0) M[L] = hl == 1 ? ml : NULL ; if (U >= 0) M[U] = hu == 1 ? mu : NULL ; if (R >= 0) M[R] = hr == 1 ? mr : NULL ;
    if (PV >= 0) P[PV] = hp == 1 ? pv : NULL ;
    ojf ("{\"ev\":\"Factor\",\"l\":\"%s\",\"u\":\"%s\",\"r\":\"%s\",\"p\":\"%s\",\"a\":\"%s\",\"s\":\"%s\",\"st\":%d,\"hl\":%d,\"hu\":%d,\"hr\":%d,\"hp\":%d", l, u, rr, p, a, ss, r, hl, hu, hr, hp) ;
    out_m (L, hl, "L") ; out_m (U, hu, "U") ; out_m (R, hr, "R") ;
    if (hp == 1) { int64_t n = A >= 0 && M[A] ? M[A]->n : 0 ; Pn[PV] = n ; ojf (",\"pinv\":") ; o_i64s (pv, icap (pv) >= n ? n : 0) ; ojf (",\"cpv\":%" PRId64, icap (pv)) ; }
    TAIL (o) ;
}
static void cmd_solve (void)
{
    char *x = T (), *b = T (), *a = T (), *l = T (), *u = T (), *rr = T (), *ss = T (), *p = T () ; int o = slot (T ()) ;
    int X = slot (x) ;
#define MS(t) (slot (t) < 0 ? NULL : M[slot (t)])
    SLIP_matrix *mx = sent ;
    BEG () ;
    SLIP_info r = SLIP_LU_solve (X < 0 ? NULL : &mx, MS (b), MS (a), MS (l), MS (u), MS (rr), slot (ss) < 0 ? NULL : S[slot (ss)], slot (p) < 0 ? NULL : P[slot (p)], o < 0 ? NULL : O[o]) ;
    END () ;
    int hx = X < 0 ? 0 : hcode (mx) ; if (X >= 0) M[X] = hx == 1 ? mx : NULL ;
    ojf ("{\"ev\":\"Solve\",\"d\":\"%s\",\"b\":\"%s\",\"a\":\"%s\",\"l\":\"%s\",\"u\":\"%s\",\"r\":\"%s\",\"s\":\"%s\",\"p\":\"%s\",\"st\":%d,\"h\":%d", x, b, a, l, u, rr, ss, p, r, hx) ;
    out_m (X, hx, "out") ; TAIL (o) ;
}
static void cmd_bsl (void)
{
    char *x = T () ; int64_t type = TI () ; char *a = T (), *b = T () ; int o = slot (T ()) ; int X = slot (x) ;
    SLIP_matrix *mx = sent ;
    BEG () ; SLIP_info r = SLIP_backslash (X < 0 ? NULL : &mx, (SLIP_type) type, MS (a), MS (b), o < 0 ? NULL : O[o]) ; END () ;
    int hx = X < 0 ? 0 : hcode (mx) ; if (X >= 0) M[X] = hx == 1 ? mx : NULL ;
    ojf ("{\"ev\":\"Backslash\",\"d\":\"%s\",\"type\":%" PRId64 ",\"a\":\"%s\",\"b\":\"%s\",\"st\":%d,\"h\":%d", x, type, a, b, r, hx) ;
    out_m (X, hx, "out") ; TAIL (o) ;
}
static void cmd_opt (char *c)
{
    if (!strcmp (c, "optnew"))
    {
        int o = slot (T ()) ; SLIP_options *x ;
        BEG () ; x = SLIP_create_default_options () ; END () ; O[o] = x ;
        ojf ("{\"ev\":\"OptNew\",\"d\":\"O%d\",\"st\":0,\"h\":%d", o, x != NULL) ; TAIL (x ? o : -2) ;
    }
    else if (!strcmp (c, "optset"))
    {
        /* optset Ox pivot order tol print prec round check */
        int o = slot (T ()) ; digall (pre) ; c_na = c_nf = c_bad = c_dm = c_fired = 0 ; nrq = 0 ; ptn = 0 ;
        if (!O[o]) { O[o] = dalloc (sizeof (SLIP_options)) ; memset (O[o], 0, sizeof (SLIP_options)) ; }
        O[o]->pivot = TI () ; O[o]->order = TI () ; O[o]->tol = TD () ; O[o]->print_level = TI () ; O[o]->prec = TI () ; O[o]->round = TI () ; O[o]->check = TI () ;
        ojf ("{\"ev\":\"OptSet\",\"d\":\"O%d\",\"st\":0", o) ; TAIL (o) ;
    }
    else
    {
        int o = slot (T ()) ; void *p = O[o] ; blk *b = tabget (p) ;
        if (b && b->owner == 2) { digall (pre) ; c_na = c_nf = c_bad = c_dm = c_fired = 0 ; nrq = 0 ; ptn = 0 ; dfree (p) ; O[o] = NULL ; ojf ("{\"ev\":\"OptFree\",\"own\":0,\"d\":\"O%d\",\"st\":0", o) ; TAIL (-2) ; return ; }
        BEG () ; SLIP_FREE (p) ; END () ; O[o] = p ; if (b && b->p != TOMB && tabget (b->p) == b) {} 
        ojf ("{\"ev\":\"OptFree\",\"own\":1,\"d\":\"O%d\",\"st\":0", o) ; TAIL (-2) ;
    }
}
static void cmd_pfree (void)
{
    int o = slot (T ()) ; void *p = P[o] ; int had = p != NULL ; void *q = p ;
    BEG () ; SLIP_free (p) ; END () ; int still = q && tabget (q) != NULL ; if (!still) P[o] = NULL ;   /* an ignored release can be repeated */
    ojf ("{\"ev\":\"PFree\",\"d\":\"P%d\",\"st\":0,\"had\":%d,\"still\":%d", o, had, still) ; TAIL (-2) ;
}
static void cmd_pset (void)
{
    /* pset Px n v...: a user-made permutation */
    int o = slot (T ()) ; int64_t n = TI () ; int64_t *p = dalloc (MAX (n, 1) * 8) ; uarr[nuarr++] = p ; for (int64_t k = 0 ; k < n ; k++) p[k] = TI () ;
    digall (pre) ; c_na = c_nf = c_bad = c_dm = c_fired = 0 ; nrq = 0 ; ptn = 0 ; fmode = 0 ;
    P[o] = p ; Pn[o] = n ;
    ojf ("{\"ev\":\"PSet\",\"d\":\"P%d\",\"st\":0,\"v\":", o) ; o_i64s (p, n) ; TAIL (-2) ;
}
static void cmd_sset (void)
{
    /* sset Sx n lnz unz q...: tweak a user-visible analysis object (a legal one: any permutation, any positive estimates) */
    int s = slot (T ()) ; int64_t n = TI () ; if (!S[s]) return ;
    digall (pre) ; c_na = c_nf = c_bad = c_dm = c_fired = 0 ; nrq = 0 ; ptn = 0 ;
    S[s]->lnz = TI () ; S[s]->unz = TI () ; for (int64_t k = 0 ; k < n ; k++) S[s]->q[k] = TI () ;
    ojf ("{\"ev\":\"SSet\",\"d\":\"S%d\",\"st\":0,\"out\":", s) ; dump_s (s, n) ; TAIL (-2) ;
}

/* ------------------------------------------------------------ memory layer */
static int allz (unsigned char *p, size_t n) { for (size_t i = 0 ; i < n ; i++) if (p[i]) return 0 ; return 1 ; }
static void fillpat (int b) { Bpat[b]++ ; unsigned char *p = B[b] ; size_t n = (size_t) MAX (blksize (p), 0) ; Bs[b] = n ; for (size_t i = 0 ; i < n ; i++) p[i] = (unsigned char) (i * 7 + Bpat[b] * 31 + b) ; }
static int prefok (int b, unsigned char *p, size_t n, unsigned char pat) { for (size_t i = 0 ; i < n ; i++) if (p[i] != (unsigned char) (i * 7 + pat * 31 + b)) return 0 ; return 1 ; }
static void cmd_mem (char *c)
{
    int b = slot (T ()) ; void *old = B[b], *p = NULL ; uint64_t a1 = 0, a2 = 0, a3 = 0 ; int okf = -1 ; bool okb = true ; int ok = 1 ; int what = 0 ;
    long oldsz = old ? blksize (old) : 0 ; unsigned char opat = Bpat[b] ;
    wantrq = 1 ;
    if (!strcmp (c, "smalloc")) { a1 = TU () ; BEG () ; p = SLIP_malloc ((size_t) a1) ; END () ; }
    else if (!strcmp (c, "scalloc")) { a1 = TU () ; a2 = TU () ; BEG () ; p = SLIP_calloc ((size_t) a1, (size_t) a2) ; END () ; what = 1 ; }
    else if (!strcmp (c, "srealloc")) { a1 = TU () ; a2 = TU () ; a3 = TU () ; BEG () ; p = SLIP_realloc ((int64_t) a1, (int64_t) a2, (size_t) a3, old, &okb) ; END () ; okf = okb ; what = 2 ; }
    else if (!strcmp (c, "sfree")) { BEG () ; SLIP_free (old) ; END () ; what = 3 ; }
    else if (!strcmp (c, "ssmalloc")) { a1 = TU () ; a2 = TU () ; BEG () ; p = SuiteSparse_malloc ((size_t) a1, (size_t) a2) ; END () ; }
    else if (!strcmp (c, "sscalloc")) { a1 = TU () ; a2 = TU () ; BEG () ; p = SuiteSparse_calloc ((size_t) a1, (size_t) a2) ; END () ; what = 1 ; }
    else if (!strcmp (c, "ssrealloc")) { a1 = TU () ; a2 = TU () ; a3 = TU () ; BEG () ; p = SuiteSparse_realloc ((size_t) a1, (size_t) a2, (size_t) a3, old, &ok) ; END () ; okf = ok ; what = 2 ; }
    else if (!strcmp (c, "ssfree")) { BEG () ; p = SuiteSparse_free (old) ; END () ; what = 3 ; }
    int same = old && p == old ; int oldalive = old && tabget (old) != NULL ;
    size_t nsz = p && tabget (p) ? (size_t) blksize (p) : 0 ;
    ojf ("{\"ev\":\"Mem\",\"op\":\"%s\",\"b\":\"B%d\",\"st\":0,\"a1\":\"%" PRIu64 "\",\"a2\":\"%" PRIu64 "\",\"a3\":\"%" PRIu64 "\",\"had\":%d,\"oldsz\":\"%ld\",\"null\":%d,\"size\":\"%zu\",\"known\":%d,\"same\":%d,\"oldalive\":%d,\"ok\":%d",
        c, b, a1, a2, a3, old != NULL, oldsz, p == NULL, nsz, p ? tabget (p) != NULL : 1, same, oldalive, okf) ;
    if (what == 1) ojf (",\"zero\":%d", p ? allz (p, nsz) : 1) ;
    if (what == 2) ojf (",\"keep\":%d", p && old ? prefok (b, p, MIN ((size_t) oldsz, nsz), opat) : 1) ;
    if (what == 3) { B[b] = oldalive ? old : NULL ; }
    else if (what == 2) { B[b] = p ; }
    else { /* overwriting an old block of this slot is the script's mistake */ B[b] = p ; }
    if (B[b] && what != 3) fillpat (b) ;
    /* digests: the block is an output of this call */
    TAIL (-2) ; wantrq = 0 ;
}

/* ------------------------------------------------------------ GMP layer */
static int gidx (char *t) { return atoi (t + 1) ; }
static void o_var (char *t)
{
    int i = gidx (t) ;
    if (t[0] == 'z') { if (gzi[i]) o_mpz (gz[i]) ; else ojf ("\"none\"") ; }
    else if (t[0] == 'q') { if (gqi[i]) o_mpq (gq[i]) ; else ojf ("\"none\"") ; }
    else if (t[0] == 'f') { if (gfi[i]) o_mpfr (gf[i]) ; else ojf ("\"none\"") ; }
    else ojf ("\"none\"") ;
}
static void cmd_g (void)
{
    /* g op arg... ; variables zN qN fN, immediates as given */
    char *op = T () ; int na = ntok - tk ; char **a = tok + tk ; char *d = na > 0 ? a[0] : "-" ;
    char ret [64] = "" ; SLIP_info r = -99 ; int ri = 0 ; int64_t rl = 0 ; double rd = 0 ; size_t rs = 0 ; char *rstr = NULL ; int isd = 0 ;
#define Z(k) gz [gidx (a[k])]
#define Q(k) gq [gidx (a[k])]
#define F(k) gf [gidx (a[k])]
#define SI(k) ((int64_t) strtoll (a[k], NULL, 10))
#define UI(k) ((uint64_t) strtoull (a[k], NULL, 10))
#define RN(k) ((mpfr_rnd_t) atoi (a[k]))
#define DB(k) (!strcmp (a[k], "nan") ? NAN : !strcmp (a[k], "inf") ? INFINITY : !strcmp (a[k], "-inf") ? -INFINITY : strtod (a[k], NULL))
    wantrq = 0 ;
    int fresh = 0 ;
    BEG () ;
    if (!strcmp (op, "mpz_init")) { r = SLIP_mpz_init (Z(0)) ; fresh = 'z' ; }
    else if (!strcmp (op, "mpz_init2")) { r = SLIP_mpz_init2 (Z(0), UI(1)) ; fresh = 'z' ; }
    else if (!strcmp (op, "mpz_set")) r = SLIP_mpz_set (Z(0), Z(1)) ;
    else if (!strcmp (op, "mpz_set_ui")) r = SLIP_mpz_set_ui (Z(0), UI(1)) ;
    else if (!strcmp (op, "mpz_set_si")) r = SLIP_mpz_set_si (Z(0), SI(1)) ;
    else if (!strcmp (op, "mpz_get_d")) { r = SLIP_mpz_get_d (&rd, Z(0)) ; isd = 1 ; }
    else if (!strcmp (op, "mpz_get_si")) { r = SLIP_mpz_get_si (&rl, Z(0)) ; sprintf (ret, "%" PRId64, rl) ; }
    else if (!strcmp (op, "mpz_set_q")) r = SLIP_mpz_set_q (Z(0), Q(1)) ;
    else if (!strcmp (op, "mpz_mul")) r = SLIP_mpz_mul (Z(0), Z(1), Z(2)) ;
    else if (!strcmp (op, "mpz_submul")) r = SLIP_mpz_submul (Z(0), Z(1), Z(2)) ;
    else if (!strcmp (op, "mpz_divexact")) r = SLIP_mpz_divexact (Z(0), Z(1), Z(2)) ;
    else if (!strcmp (op, "mpz_gcd")) r = SLIP_mpz_gcd (Z(0), Z(1), Z(2)) ;
    else if (!strcmp (op, "mpz_lcm")) r = SLIP_mpz_lcm (Z(0), Z(1), Z(2)) ;
    else if (!strcmp (op, "mpz_abs")) r = SLIP_mpz_abs (Z(0), Z(1)) ;
    else if (!strcmp (op, "mpz_cmp")) { r = SLIP_mpz_cmp (&ri, Z(0), Z(1)) ; sprintf (ret, "%d", (ri > 0) - (ri < 0)) ; }
    else if (!strcmp (op, "mpz_cmpabs")) { r = SLIP_mpz_cmpabs (&ri, Z(0), Z(1)) ; sprintf (ret, "%d", (ri > 0) - (ri < 0)) ; }
    else if (!strcmp (op, "mpz_cmp_ui")) { r = SLIP_mpz_cmp_ui (&ri, Z(0), UI(1)) ; sprintf (ret, "%d", (ri > 0) - (ri < 0)) ; }
    else if (!strcmp (op, "mpz_sgn")) { r = SLIP_mpz_sgn (&ri, Z(0)) ; sprintf (ret, "%d", (ri > 0) - (ri < 0)) ; }
    else if (!strcmp (op, "mpz_sizeinbase")) { r = SLIP_mpz_sizeinbase (&rs, Z(0), SI(1)) ; sprintf (ret, "%zu", rs) ; }
    else if (!strcmp (op, "mpq_init")) { r = SLIP_mpq_init (Q(0)) ; fresh = 'q' ; }
    else if (!strcmp (op, "mpq_set")) r = SLIP_mpq_set (Q(0), Q(1)) ;
    else if (!strcmp (op, "mpq_set_z")) r = SLIP_mpq_set_z (Q(0), Z(1)) ;
    else if (!strcmp (op, "mpq_set_d")) r = SLIP_mpq_set_d (Q(0), DB(1)) ;
    else if (!strcmp (op, "mpq_set_ui")) r = SLIP_mpq_set_ui (Q(0), UI(1), UI(2)) ;
    else if (!strcmp (op, "mpq_set_si")) r = SLIP_mpq_set_si (Q(0), SI(1), UI(2)) ;
    else if (!strcmp (op, "mpq_set_num")) r = SLIP_mpq_set_num (Q(0), Z(1)) ;
    else if (!strcmp (op, "mpq_set_den")) r = SLIP_mpq_set_den (Q(0), Z(1)) ;
    else if (!strcmp (op, "mpq_get_den")) r = SLIP_mpq_get_den (Z(0), Q(1)) ;
    else if (!strcmp (op, "mpq_get_d")) { r = SLIP_mpq_get_d (&rd, Q(0)) ; isd = 1 ; }
    else if (!strcmp (op, "mpq_abs")) r = SLIP_mpq_abs (Q(0), Q(1)) ;
    else if (!strcmp (op, "mpq_add")) r = SLIP_mpq_add (Q(0), Q(1), Q(2)) ;
    else if (!strcmp (op, "mpq_mul")) r = SLIP_mpq_mul (Q(0), Q(1), Q(2)) ;
    else if (!strcmp (op, "mpq_div")) r = SLIP_mpq_div (Q(0), Q(1), Q(2)) ;
    else if (!strcmp (op, "mpq_cmp")) { r = SLIP_mpq_cmp (&ri, Q(0), Q(1)) ; sprintf (ret, "%d", (ri > 0) - (ri < 0)) ; }
    else if (!strcmp (op, "mpq_cmp_ui")) { r = SLIP_mpq_cmp_ui (&ri, Q(0), UI(1), UI(2)) ; sprintf (ret, "%d", (ri > 0) - (ri < 0)) ; }
    else if (!strcmp (op, "mpq_sgn")) { r = SLIP_mpq_sgn (&ri, Q(0)) ; sprintf (ret, "%d", (ri > 0) - (ri < 0)) ; }
    else if (!strcmp (op, "mpq_equal")) { r = SLIP_mpq_equal (&ri, Q(0), Q(1)) ; sprintf (ret, "%d", ri != 0) ; }
    else if (!strcmp (op, "mpfr_init2")) { r = SLIP_mpfr_init2 (F(0), UI(1)) ; fresh = 'f' ; }
    else if (!strcmp (op, "mpfr_set")) r = SLIP_mpfr_set (F(0), F(1), RN(2)) ;
    else if (!strcmp (op, "mpfr_set_d")) r = SLIP_mpfr_set_d (F(0), DB(1), RN(2)) ;
    else if (!strcmp (op, "mpfr_set_si")) r = SLIP_mpfr_set_si (F(0), SI(1), RN(2)) ;
    else if (!strcmp (op, "mpfr_set_q")) r = SLIP_mpfr_set_q (F(0), Q(1), RN(2)) ;
    else if (!strcmp (op, "mpfr_set_z")) r = SLIP_mpfr_set_z (F(0), Z(1), RN(2)) ;
    else if (!strcmp (op, "mpfr_get_z")) r = SLIP_mpfr_get_z (Z(0), F(1), RN(2)) ;
    else if (!strcmp (op, "mpfr_get_q")) r = SLIP_mpfr_get_q (Q(0), F(1), RN(2)) ;
    else if (!strcmp (op, "mpfr_get_d")) { r = SLIP_mpfr_get_d (&rd, F(0), RN(1)) ; isd = 1 ; }
    else if (!strcmp (op, "mpfr_get_si")) { r = SLIP_mpfr_get_si (&rl, F(0), RN(1)) ; sprintf (ret, "%" PRId64, rl) ; }
    else if (!strcmp (op, "mpfr_mul")) r = SLIP_mpfr_mul (F(0), F(1), F(2), RN(3)) ;
    else if (!strcmp (op, "mpfr_mul_d")) r = SLIP_mpfr_mul_d (F(0), F(1), DB(2), RN(3)) ;
    else if (!strcmp (op, "mpfr_div_d")) r = SLIP_mpfr_div_d (F(0), F(1), DB(2), RN(3)) ;
    else if (!strcmp (op, "mpfr_ui_pow_ui")) r = SLIP_mpfr_ui_pow_ui (F(0), UI(1), UI(2), RN(3)) ;
    else if (!strcmp (op, "mpfr_sgn")) { r = SLIP_mpfr_sgn (&ri, F(0)) ; sprintf (ret, "%d", (ri > 0) - (ri < 0)) ; }
    else if (!strcmp (op, "asprintf_z")) { rstr = NULL ; r = SLIP_mpfr_asprintf (&rstr, "%Zd", Z(0)) ; }
    else if (!strcmp (op, "asprintf_q")) { rstr = NULL ; r = SLIP_mpfr_asprintf (&rstr, "%Qd", Q(0)) ; }
    else if (!strcmp (op, "fscanf_z")) { END () ; FILE *fp = tmpfile () ; if (fp) { fputs (a[1], fp) ; rewind (fp) ; setvbuf (fp, NULL, _IONBF, 0) ; in_call = 1 ; r = SLIP_gmp_fscanf (fp, "%Zd", Z(0)) ; in_call = 0 ; fclose (fp) ; } c_dm = 0 ; }
    else if (!strcmp (op, "mpz_clear")) { if (gzi[gidx (a[0])]) mpz_clear (Z(0)) ; r = 0 ; gzi[gidx (a[0])] = 0 ; }
    else if (!strcmp (op, "mpq_clear")) { if (gqi[gidx (a[0])]) mpq_clear (Q(0)) ; r = 0 ; gqi[gidx (a[0])] = 0 ; }
    else if (!strcmp (op, "mpfr_clear")) { if (gfi[gidx (a[0])]) mpfr_clear (F(0)) ; r = 0 ; gfi[gidx (a[0])] = 0 ; }
    END () ;
    if (fresh == 'z' && r == 0) gzi[gidx (a[0])] = 1 ;
    if (fresh == 'q' && r == 0) gqi[gidx (a[0])] = 1 ;
    if (fresh == 'f' && r == 0) gfi[gidx (a[0])] = 1 ;
    ojf ("{\"ev\":\"G\",\"op\":\"%s\",\"args\":[", op) ;
    for (int k = 0 ; k < na ; k++) { ojf (k ? "," : "") ; ostr (a[k], strlen (a[k])) ; }
    ojf ("],\"st\":%d,\"d\":\"%s\",\"ret\":", r, d) ;
    if (isd) o_dbl (rd) ;
    else if (rstr) { ostr (rstr, strlen (rstr)) ; }
    else ojf ("\"%s\"", ret) ;
    ojf (",\"dbl\":") ; if (na > 1 && (strstr (op, "_d") != NULL) && a[na > 2 ? (strstr (op, "mul_d") || strstr (op, "div_d") ? 2 : 1) : 1][0] != 'z') { char *q = a[(strstr (op, "mul_d") || strstr (op, "div_d")) ? 2 : 1] ; if (q[0] != 'q' && q[0] != 'f') o_dbl (!strcmp (q, "nan") ? NAN : !strcmp (q, "inf") ? INFINITY : !strcmp (q, "-inf") ? -INFINITY : strtod (q, NULL)) ; else ojf ("\"\"") ; } else ojf ("\"\"") ;
    ojf (",\"val\":") ; o_var (d) ;
    ojf (",\"dprec\":%ld", d[0] == 'f' && gfi[gidx (d)] ? (long) gf[gidx (d)]->_mpfr_prec : 0) ;
    char *sfree = rstr ;
    TAIL (-2) ;
    if (sfree) mpfr_free_str (sfree) ;
}
static void cmd_gset (void)
{
    /* gset zN|qN|fN value: give an initialised variable a value (harness action) */
    char *t = T () ; char *v = T () ; int i = gidx (t) ;
    digall (pre) ; c_na = c_nf = c_bad = c_dm = c_fired = 0 ; nrq = 0 ; ptn = 0 ; fmode = 0 ;
    if (t[0] == 'z' && gzi[i]) mpz_set_str (gz[i], v, 10) ;
    else if (t[0] == 'q' && gqi[i]) mpq_set_str (gq[i], v, 10) ;
    else if (t[0] == 'f' && gfi[i]) { if (!strcmp (v, "nan")) mpfr_set_nan (gf[i]) ; else if (!strcmp (v, "inf")) mpfr_set_inf (gf[i], 1) ; else if (!strcmp (v, "-inf")) mpfr_set_inf (gf[i], -1) ; else mpfr_set_str (gf[i], v, 16, MPFR_RNDN) ; }
    ojf ("{\"ev\":\"GSet\",\"st\":0,\"d\":\"%s\",\"val\":", t) ; o_var (t) ; ojf (",\"dprec\":%ld", t[0] == 'f' && gfi[i] ? (long) gf[i]->_mpfr_prec : 0) ; TAIL (-2) ;
}

/* ------------------------------------------------------------ AMD / COLAMD / SYMAMD */
static int unchanged (void *a, void *b, size_t n) { return memcmp (a, b, n) == 0 ; }
static void o_num (double d) { if (isnan (d)) ojf ("\"nan\"") ; else if (fabs (d) < 1e9 && d == floor (d)) ojf ("%ld", (long) d) ; else o_dbl (d) ; }
static void cmd_amd (void)
{
    /* amd what variant n nAp nAi nullmask ctl dense aggr  Ap... Ai...
       what: o order, v valid ; nullmask bits: 1 Ap 2 Ai 4 P 8 Control 16 Info */
    char *what = T () ; int var = TI () ; int64_t n = TI (), nap = TI (), nai = TI () ; int nm = TI () ; int ctl = TI () ; double dense = TD () ; double aggr = TD () ;
    int64_t k ; int st = -99 ;
    double C [AMD_CONTROL], I [AMD_INFO] ; for (k = 0 ; k < AMD_INFO ; k++) I[k] = -777 ;
    int64_t np = MAX (n, 1) ; if (np > 100000) np = 1 ;
    int64_t *la = dalloc (MAX (nap, 1) * 8), *li = dalloc (MAX (nai, 1) * 8), *lp = dalloc (np * 8) ;
    int *sa = dalloc (MAX (nap, 1) * 4), *si = dalloc (MAX (nai, 1) * 4), *sp = dalloc (np * 4) ;
    for (k = 0 ; k < nap ; k++) { la[k] = TI () ; sa[k] = (int) la[k] ; }
    for (k = 0 ; k < nai ; k++) { li[k] = TI () ; si[k] = (int) li[k] ; }
    for (k = 0 ; k < np ; k++) { lp[k] = -5 ; sp[k] = -5 ; }
    int64_t *la0 = malloc (MAX (nap, 1) * 8), *li0 = malloc (MAX (nai, 1) * 8) ; memcpy (la0, la, nap * 8) ; memcpy (li0, li, nai * 8) ;
    int *sa0 = malloc (MAX (nap, 1) * 4), *si0 = malloc (MAX (nai, 1) * 4) ; memcpy (sa0, sa, nap * 4) ; memcpy (si0, si, nai * 4) ;
    if (var) amd_l_defaults (C) ; else amd_defaults (C) ;
    double C0 [2] = { C [AMD_DENSE], C [AMD_AGGRESSIVE] } ;
    if (ctl) { C [AMD_DENSE] = dense ; C [AMD_AGGRESSIVE] = aggr ; }
    double Csave [AMD_CONTROL] ; memcpy (Csave, C, sizeof C) ;
    double *cp = (nm & 8) ? NULL : C, *ip = (nm & 16) ? NULL : I ;
    piv_begin (np) ;
    BEG () ;
    if (what[0] == 'o')
    {
        if (var) st = (int) amd_l_order (n, (nm & 1) ? NULL : (SuiteSparse_long *) la, (nm & 2) ? NULL : (SuiteSparse_long *) li, (nm & 4) ? NULL : (SuiteSparse_long *) lp, cp, ip) ;
        else st = amd_order ((int) n, (nm & 1) ? NULL : sa, (nm & 2) ? NULL : si, (nm & 4) ? NULL : sp, cp, ip) ;
    }
    else
    {
        int64_t nc = (nm & 4) ? n + 1 : n ;   /* bit 4 for valid: non-square n_row */
        if (var) st = (int) amd_l_valid (nc, n, (nm & 1) ? NULL : (SuiteSparse_long *) la, (nm & 2) ? NULL : (SuiteSparse_long *) li) ;
        else st = amd_valid ((int) nc, (int) n, (nm & 1) ? NULL : sa, (nm & 2) ? NULL : si) ;
    }
    END () ;
    ojf ("{\"ev\":\"Amd\",\"what\":\"%s\",\"var\":%d,\"n\":%" PRId64 ",\"nm\":%d,\"ctl\":%d,\"dense\":", what, var, n, nm, ctl) ; o_dbl (ctl ? dense : C0[0]) ;
    ojf (",\"defs\":[") ; o_num (C0[0]) ; ojf (",") ; o_num (C0[1]) ; ojf ("],\"Ap\":") ; o_i64s (la0, nap) ; ojf (",\"Ai\":") ; o_i64s (li0, nai) ;
    ojf (",\"st\":%d,\"P\":", st) ;
    int64_t nn = n < 0 || n > 100000 ? 0 : n ; ojf ("[") ; for (k = 0 ; k < nn ; k++) ojf ("%s%" PRId64, k ? "," : "", var ? lp[k] : (int64_t) sp[k]) ; ojf ("]") ;
    ojf (",\"info\":[") ; for (k = 0 ; k < 14 ; k++) { ojf (k ? "," : "") ; o_num (I[k]) ; } ojf ("],\"symf\":") ; o_dbl (I [AMD_SYMMETRY]) ;
    ojf (",\"inok\":%d", (var ? unchanged (la, la0, nap * 8) && unchanged (li, li0, nai * 8) : unchanged (sa, sa0, nap * 4) && unchanged (si, si0, nai * 4)) && !memcmp (C, Csave, sizeof C)) ;
    ojf (",\"aggr\":%d", (nm & 8) || !ctl || aggr != 0) ; piv_end () ;
    TAIL (-2) ;
    dfree (la) ; dfree (li) ; dfree (lp) ; dfree (sa) ; dfree (si) ; dfree (sp) ; free (la0) ; free (li0) ; free (sa0) ; free (si0) ;
}
static void cmd_amd2 (void)
{
    /* amd2 variant n extra layout nullmask ctl dense aggr  len0 a.. len1 b.. ...   the rows of a symmetric pattern, no diagonal
       extra: elbow room beyond pfree + n; layout 0: rows one after the other, 1: last row first with unused space between; nullmask 8 Control 16 Info */
    int var = TI () ; int64_t n = TI (), extra = TI () ; int lay = TI (), nm = TI (), ctl = TI () ; double dense = TD (), aggr = TD () ;
    int64_t k, q, tot = 0, gap = lay ? 2 : 0 ; int64_t *len = malloc (n * 8), **row = malloc (n * sizeof (void *)), *pe = malloc (n * 8) ;
    for (k = 0 ; k < n ; k++) { len[k] = TI () ; row[k] = malloc (MAX (len[k], 1) * 8) ; for (q = 0 ; q < len[k] ; q++) row[k][q] = TI () ; }
    for (k = 0 ; k < n ; k++) { int64_t r = lay ? n - 1 - k : k ; pe[r] = len[r] ? tot : (lay ? -77 : tot) ; tot += len[r] + gap ; }
    int64_t pfree = tot, iwlen = pfree + n + extra ;
    SuiteSparse_long *L[9], *Liw = dalloc (MAX (iwlen, 1) * 8) ; int *S[9], *Siw = dalloc (MAX (iwlen, 1) * 4) ;
    for (k = 0 ; k < iwlen ; k++) { Liw[k] = -1 ; Siw[k] = -1 ; }
    for (k = 0 ; k < 9 ; k++) { L[k] = dalloc (n * 8) ; S[k] = dalloc (n * 4) ; for (q = 0 ; q < n ; q++) { L[k][q] = -5 ; S[k][q] = -5 ; } }
    for (k = 0 ; k < n ; k++)
    {
        L[0][k] = pe[k] ; S[0][k] = (int) pe[k] ; L[1][k] = len[k] ; S[1][k] = (int) len[k] ;
        for (q = 0 ; q < len[k] ; q++) { Liw[pe[k] + q] = row[k][q] ; Siw[pe[k] + q] = (int) row[k][q] ; }
    }
    double C [AMD_CONTROL], I [AMD_INFO] ; for (k = 0 ; k < AMD_INFO ; k++) I[k] = -777 ;
    if (var) amd_l_defaults (C) ; else amd_defaults (C) ;
    double C0 = C [AMD_DENSE] ;
    if (ctl) { C [AMD_DENSE] = dense ; C [AMD_AGGRESSIVE] = aggr ; }
    double *cp = (nm & 8) ? NULL : C, *ip = (nm & 16) ? NULL : I ;
    piv_begin (n) ;
    BEG () ;
    if (var) amd_l2 (n, L[0], Liw, L[1], iwlen, pfree, L[2], L[3], L[4], L[5], L[6], L[7], L[8], cp, ip) ;
    else amd_2 ((int) n, S[0], Siw, S[1], (int) iwlen, (int) pfree, S[2], S[3], S[4], S[5], S[6], S[7], S[8], cp, ip) ;
    END () ;
    ojf ("{\"ev\":\"Amd2\",\"st\":0,\"var\":%d,\"n\":%" PRId64 ",\"nm\":%d,\"extra\":%" PRId64 ",\"aggr\":%d,\"dense\":", var, n, nm, extra, ctl && cp ? aggr != 0 : AMD_DEFAULT_AGGRESSIVE) ; o_dbl (ctl && cp ? dense : C0) ;
    ojf (",\"rows\":[") ; for (k = 0 ; k < n ; k++) { ojf (k ? "," : "") ; o_i64s (row[k], len[k]) ; } ojf ("]") ;
    piv_end () ;
    static const char *nam [9] = { "Pe", "", "Nv", "Next", "Last", "", "Elen", "", "" } ;
    for (k = 0 ; k < 9 ; k++) if (nam[k][0])
    { ojf (",\"%s\":[", nam[k]) ; for (q = 0 ; q < n ; q++) ojf ("%s%" PRId64, q ? "," : "", var ? (int64_t) L[k][q] : (int64_t) S[k][q]) ; ojf ("]") ; }
    ojf (",\"info\":[") ; for (k = 0 ; k < 14 ; k++) { ojf (k ? "," : "") ; o_num (I[k]) ; } ojf ("]") ;
    TAIL (-2) ;
    for (k = 0 ; k < 9 ; k++) { dfree (L[k]) ; dfree (S[k]) ; } dfree (Liw) ; dfree (Siw) ; for (k = 0 ; k < n ; k++) free (row[k]) ; free (row) ; free (len) ; free (pe) ;
}
/* the Fortran versions */
#ifndef NO_FORTRAN
extern void amd_ (int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *) ;
extern void amdbar_ (int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *) ;
#endif
static void cmd_amdf (void)
{
    /* amdf which n room layout  len0 a.. len1 b.. ...   which: 0 amd, 1 amdbar (no aggressive absorption); rows of a symmetric pattern, no diagonal
       room: space in iw beyond the matrix; layout 0: rows one after the other, 1: last row first with unused space between */
    int which = TI () ; int64_t n = TI (), room = TI () ; int lay = TI () ;
    int64_t k, q, tot = 1, gap = lay ? 2 : 0 ; int64_t *len = malloc (n * 8), **row = malloc (n * sizeof (void *)), *pe = malloc (n * 8) ;
    for (k = 0 ; k < n ; k++) { len[k] = TI () ; row[k] = malloc (MAX (len[k], 1) * 8) ; for (q = 0 ; q < len[k] ; q++) row[k][q] = TI () ; }
    for (k = 0 ; k < n ; k++) { int64_t r = lay ? n - 1 - k : k ; pe[r] = len[r] ? tot : 0 ; if (len[r]) tot += len[r] + gap ; }
    int N = (int) n, pfree0 = (int) tot, pfree = pfree0, iwlen = (int) (pfree0 - 1 + room), ncmpa = -7 ;
    int *S[9], *iw = dalloc (MAX (iwlen, 1) * 4) ;      /* 0 PE 1 LEN 2 NV 3 NEXT 4 LAST 5 HEAD 6 ELEN 7 DEGREE 8 W */
    for (k = 0 ; k < iwlen ; k++) iw[k] = 0 ;
    for (k = 0 ; k < 9 ; k++) { S[k] = dalloc (n * 4) ; for (q = 0 ; q < n ; q++) S[k][q] = -5 ; }
    for (k = 0 ; k < n ; k++)
    {
        S[0][k] = (int) pe[k] ; S[1][k] = (int) len[k] ;
        for (q = 0 ; q < len[k] ; q++) iw[pe[k] - 1 + q] = (int) row[k][q] + 1 ;
    }
    BEG () ;
#ifndef NO_FORTRAN
    (which ? amdbar_ : amd_) (&N, S[0], iw, S[1], &iwlen, &pfree, S[2], S[3], S[4], S[5], S[6], S[7], &ncmpa, S[8]) ;
#endif
    END () ;
    ojf ("{\"ev\":\"AmdF\",\"st\":0,\"which\":%d,\"n\":%" PRId64 ",\"iwlen\":%d,\"pfree0\":%d,\"pfree\":%d,\"ncmpa\":%d,\"same\":%d", which, n, iwlen, pfree0, pfree, ncmpa, N == n && iwlen == (int) (pfree0 - 1 + room)) ;
    ojf (",\"rows\":[") ; for (k = 0 ; k < n ; k++) { ojf (k ? "," : "") ; o_i64s (row[k], len[k]) ; } ojf ("]") ;
    static const char *nam [9] = { "Pe", "", "Nv", "", "Last", "", "Elen", "", "" } ;
    for (k = 0 ; k < 9 ; k++) if (nam[k][0])
    { ojf (",\"%s\":[", nam[k]) ; for (q = 0 ; q < n ; q++) ojf ("%s%d", q ? "," : "", S[k][q]) ; ojf ("]") ; }
    TAIL (-2) ;
    for (k = 0 ; k < 9 ; k++) dfree (S[k]) ; dfree (iw) ; for (k = 0 ; k < n ; k++) free (row[k]) ; free (row) ; free (len) ; free (pe) ;
}
static double mono (void) { struct timespec t ; clock_gettime (CLOCK_MONOTONIC, &t) ; return t.tv_sec + 1e-9 * t.tv_nsec ; }
/* is each function of the configuration the one installed by default? */
static struct SuiteSparse_config_struct conf0 ;    /* as it was when the process started */
static void o_conf (struct SuiteSparse_config_struct *c)
{
    ojf ("[\"%d\",\"%d\",\"%d\",\"%d\",\"%d\",\"%d\",\"%d\"]", c->malloc_func == malloc, c->calloc_func == calloc, c->realloc_func == realloc, c->free_func == free,
        c->printf_func == printf, c->hypot_func == SuiteSparse_hypot, c->divcomplex_func == SuiteSparse_divcomplex) ;
}
static void cmd_util (void)
{
    /* util hypot x y | div alias ar ai br bi (alias: 0 none, 1 c is a, 2 c is b) | tic microseconds | version null | start */
    char *w = T () ; int r = 0, i ; double v [4] = { 0, 0, 0, 0 }, c [2] = { 0, 0 } ;
    if (!strcmp (w, "hypot"))
    {
        int hook = TI () ; v[0] = TD () ; v[1] = TD () ;
        BEG () ; c[0] = hook ? SuiteSparse_config.hypot_func (v[0], v[1]) : SuiteSparse_hypot (v[0], v[1]) ; END () ;
        ojf ("{\"ev\":\"Util\",\"what\":\"hypot\",\"st\":0,\"in\":[") ; o_dbl (v[0]) ; ojf (",") ; o_dbl (v[1]) ; ojf ("],\"out\":[") ; o_dbl (c[0]) ; ojf ("],\"ret\":0") ; TAIL (-2) ;
    }
    else if (!strcmp (w, "div"))
    {
        int hook = TI (), alias = TI () ; for (i = 0 ; i < 4 ; i++) v[i] = TD () ;
        double a[2] = { v[0], v[1] }, b[2] = { v[2], v[3] }, *o = alias == 1 ? a : alias == 2 ? b : c ;
        BEG () ; r = (hook ? SuiteSparse_config.divcomplex_func : SuiteSparse_divcomplex) (a[0], a[1], b[0], b[1], &o[0], &o[1]) ; END () ;
        ojf ("{\"ev\":\"Util\",\"what\":\"div\",\"st\":0,\"in\":[") ; for (i = 0 ; i < 4 ; i++) { ojf (i ? "," : "") ; o_dbl (v[i]) ; } ojf ("],\"out\":[") ; o_dbl (o[0]) ; ojf (",") ; o_dbl (o[1]) ; ojf ("],\"ret\":%d", r) ; TAIL (-2) ;
    }
    else if (!strcmp (w, "tic"))
    {
        long us = TI () ; double t [2], e, o0, i0, i1, o1, w0, w1 ;
        BEG () ;
        w0 = SuiteSparse_time () ; o0 = mono () ; SuiteSparse_tic (t) ; i0 = mono () ; usleep (us) ; i1 = mono () ; e = SuiteSparse_toc (t) ; o1 = mono () ; w1 = SuiteSparse_time () ;
        END () ;
        /* inside: shortest it can be, outside: longest it can be */
        ojf ("{\"ev\":\"Util\",\"what\":\"tic\",\"st\":0,\"in\":[") ; o_dbl (i1 - i0) ; ojf (",") ; o_dbl (o1 - o0) ; ojf ("],\"out\":[") ; o_dbl (e) ; ojf (",") ; o_dbl (w1 - w0) ; ojf (",") ; o_dbl (t[1]) ; ojf ("],\"ret\":0") ; TAIL (-2) ;
    }
    else if (!strcmp (w, "version"))
    {
        int nul = TI (), ver [3] = { -1, -1, -1 } ;
        BEG () ; r = SuiteSparse_version (nul ? NULL : ver) ; END () ;
        ojf ("{\"ev\":\"Util\",\"what\":\"version\",\"st\":0,\"in\":[\"%d\",\"%d\",\"%d\",\"%d\"],\"out\":[\"%d\",\"%d\",\"%d\"],\"nul\":%d,\"ret\":%d", SUITESPARSE_MAIN_VERSION, SUITESPARSE_SUB_VERSION, SUITESPARSE_SUBSUB_VERSION, SUITESPARSE_VERSION, ver[0], ver[1], ver[2], nul, r) ; TAIL (-2) ;
    }
    else if (!strcmp (w, "start"))
    {
        /* mode: 0 from the functions in use, 1 from an empty configuration; then finish */
        int mode = TI () ; struct SuiteSparse_config_struct sv, got, fin ;
        BEG () ; sv = SuiteSparse_config ;
        if (mode) memset (&SuiteSparse_config, 0, sizeof sv) ;
        SuiteSparse_start () ; got = SuiteSparse_config ; SuiteSparse_finish () ; fin = SuiteSparse_config ;
        SuiteSparse_config = sv ; END () ;
        ojf ("{\"ev\":\"Util\",\"what\":\"start\",\"st\":0,\"in\":") ; o_conf (&conf0) ; ojf (",\"out\":") ; o_conf (&got) ; ojf (",\"fin\":") ; o_conf (&fin) ; ojf (",\"ret\":0") ; TAIL (-2) ;
    }

}
static void cmd_colamd (void)
{
    /* colamd variant n_row n_col Alen np nA nullmask kn k0 k1 k2  p... A...     nullmask 1 A, 2 p, 4 stats, (8: Alen = recommended + given delta) */
    int var = TI () ; int64_t nr = TI (), nc = TI (), Alen = TI (), np = TI (), nA = TI () ; int nm = TI () ; int kn = TI () ; double k0 = TD (), k1 = TD (), k2 = TD () ;
    int64_t k ; int64_t rec = -1 ; int st = -99 ;
    int64_t *p0 = malloc (MAX (np, 1) * 8), *A0 = malloc (MAX (nA, 1) * 8) ;
    for (k = 0 ; k < np ; k++) p0[k] = TI () ; for (k = 0 ; k < nA ; k++) A0[k] = TI () ;
    double knobs [COLAMD_KNOBS] ; if (var) colamd_l_set_defaults (knobs) ; else colamd_set_defaults (knobs) ;
    double kd [3] = { knobs[0], knobs[1], knobs[2] } ;
    if (kn) { knobs[0] = k0 ; knobs[1] = k1 ; knobs[2] = k2 ; }
    double ksave [COLAMD_KNOBS] ; memcpy (ksave, knobs, sizeof knobs) ;
    int64_t nnz = np > 0 && nc >= 0 && nc < np ? p0[nc] : 0 ;
    rec = var ? (int64_t) colamd_l_recommended (nnz, nr, nc) : (int64_t) colamd_recommended ((int) nnz, (int) nr, (int) nc) ;
    if (nm & 8) Alen = rec + Alen ;
    int64_t cap = MAX (MAX (Alen, nA), 1) ; if (cap > 50000000) cap = 1 ;
    SuiteSparse_long *lA = dalloc (cap * 8), *lp = dalloc (MAX (np, 1) * 8), ls [COLAMD_STATS] ; int *sA = dalloc (cap * 4), *sp = dalloc (MAX (np, 1) * 4), ss [COLAMD_STATS] ;
    for (k = 0 ; k < cap ; k++) { lA[k] = k < nA ? A0[k] : -123456 ; sA[k] = (int) lA[k] ; }
    for (k = 0 ; k < np ; k++) { lp[k] = p0[k] ; sp[k] = (int) p0[k] ; }
    for (k = 0 ; k < COLAMD_STATS ; k++) { ls[k] = -777 ; ss[k] = -777 ; }
    BEG () ;
    if (var) st = (int) colamd_l (nr, nc, Alen, (nm & 1) ? NULL : lA, (nm & 2) ? NULL : lp, kn == 2 ? NULL : knobs, (nm & 4) ? NULL : ls) ;
    else st = colamd ((int) nr, (int) nc, (int) Alen, (nm & 1) ? NULL : sA, (nm & 2) ? NULL : sp, kn == 2 ? NULL : knobs, (nm & 4) ? NULL : ss) ;
    END () ;
    ojf ("{\"ev\":\"Colamd\",\"var\":%d,\"nr\":%" PRId64 ",\"nc\":%" PRId64 ",\"Alen\":%" PRId64 ",\"rec\":%" PRId64 ",\"nm\":%d,\"kn\":%d,\"k0\":", var, nr, nc, Alen, rec, nm, kn) ;
    o_dbl (kn == 1 ? k0 : kd[0]) ; ojf (",\"k1\":") ; o_dbl (kn == 1 ? k1 : kd[1]) ; ojf (",\"k2\":") ; o_dbl (kn == 1 ? k2 : kd[2]) ; ojf (",\"defs\":[") ; for (k = 0 ; k < 3 ; k++) { ojf (k ? "," : "") ; o_num (kd[k]) ; }
    ojf ("],\"p\":") ; o_i64s (p0, np) ; ojf (",\"A\":") ; o_i64s (A0, nA) ;
    ojf (",\"st\":%d,\"perm\":[", st) ; for (k = 0 ; k < np ; k++) ojf ("%s%" PRId64, k ? "," : "", var ? (int64_t) lp[k] : (int64_t) sp[k]) ;
    ojf ("],\"stats\":[") ; for (k = 0 ; k < 7 ; k++) ojf ("%s%" PRId64, k ? "," : "", var ? (int64_t) ls[k] : (int64_t) ss[k]) ;
    ojf ("],\"kok\":%d", !memcmp (ksave, knobs, sizeof knobs)) ;
    TAIL (-2) ;
    dfree (lA) ; dfree (lp) ; dfree (sA) ; dfree (sp) ; free (p0) ; free (A0) ;
}
static void cmd_rec (void)
{
    int var = TI () ; int64_t a = TI (), b = TI (), c = TI () ; uint64_t r ;
    BEG () ; r = var ? (uint64_t) colamd_l_recommended (a, b, c) : (uint64_t) colamd_recommended ((int) a, (int) b, (int) c) ; END () ;
    ojf ("{\"ev\":\"Rec\",\"var\":%d,\"st\":0,\"nnz\":\"%" PRId64 "\",\"nr\":\"%" PRId64 "\",\"nc\":\"%" PRId64 "\",\"ret\":\"%" PRIu64 "\"", var, a, b, c, r) ; TAIL (-2) ;
}
static void cmd_symamd (void)
{
    /* symamd variant n np nA nullmask kn k0 k1 k2 p... A... ; nullmask 1 A, 2 p, 4 stats 8 knobs NULL */
    int var = TI () ; int64_t n = TI (), np = TI (), nA = TI () ; int nm = TI () ; int kn = TI () ; double k0 = TD (), k1 = TD (), k2 = TD () ;
    int64_t k ; int st = -99 ;
    SuiteSparse_long *lA = dalloc (MAX (nA, 1) * 8), *lp = dalloc (MAX (np, 1) * 8), ls [COLAMD_STATS], *lq ; int *sA = dalloc (MAX (nA, 1) * 4), *sp = dalloc (MAX (np, 1) * 4), ss [COLAMD_STATS], *sq ;
    int64_t nq = n < 0 || n > 100000 ? 1 : n + 1 ; lq = dalloc (nq * 8) ; sq = dalloc (nq * 4) ;
    for (k = 0 ; k < np ; k++) { lp[k] = TI () ; sp[k] = (int) lp[k] ; } for (k = 0 ; k < nA ; k++) { lA[k] = TI () ; sA[k] = (int) lA[k] ; }
    SuiteSparse_long *lA0 = malloc (MAX (nA, 1) * 8), *lp0 = malloc (MAX (np, 1) * 8) ; memcpy (lA0, lA, nA * 8) ; memcpy (lp0, lp, np * 8) ;
    int *sA0 = malloc (MAX (nA, 1) * 4), *sp0 = malloc (MAX (np, 1) * 4) ; memcpy (sA0, sA, nA * 4) ; memcpy (sp0, sp, np * 4) ;
    for (k = 0 ; k < nq ; k++) { lq[k] = -5 ; sq[k] = -5 ; }
    for (k = 0 ; k < COLAMD_STATS ; k++) { ls[k] = -777 ; ss[k] = -777 ; }
    double knobs [COLAMD_KNOBS] ; if (var) colamd_l_set_defaults (knobs) ; else colamd_set_defaults (knobs) ;
    double kd0 = knobs[0] ;
    if (kn) { knobs[0] = k0 ; knobs[1] = k1 ; knobs[2] = k2 ; }
    double ksave [COLAMD_KNOBS] ; memcpy (ksave, knobs, sizeof knobs) ;
    BEG () ;
    if (var) st = (int) symamd_l (n, (nm & 1) ? NULL : lA, (nm & 2) ? NULL : lp, lq, (nm & 8) ? NULL : knobs, (nm & 4) ? NULL : ls, &tr_calloc, &tr_free) ;
    else st = symamd ((int) n, (nm & 1) ? NULL : sA, (nm & 2) ? NULL : sp, sq, (nm & 8) ? NULL : knobs, (nm & 4) ? NULL : ss, &tr_calloc, &tr_free) ;
    END () ;
    ojf ("{\"ev\":\"Symamd\",\"var\":%d,\"n\":%" PRId64 ",\"nm\":%d,\"kn\":%d,\"k0\":", var, n, nm, kn) ; o_dbl (kn && !(nm & 8) ? k0 : kd0) ; ojf (",\"k2\":") ; o_dbl (kn && !(nm & 8) ? k2 : 1) ;
    ojf (",\"p\":[") ; for (k = 0 ; k < np ; k++) ojf ("%s%ld", k ? "," : "", (long) lp0[k]) ; ojf ("],\"A\":[") ; for (k = 0 ; k < nA ; k++) ojf ("%s%ld", k ? "," : "", (long) lA0[k]) ;
    ojf ("],\"st\":%d,\"perm\":[", st) ; for (k = 0 ; k < (n < 0 ? 0 : nq) ; k++) ojf ("%s%" PRId64, k ? "," : "", var ? (int64_t) lq[k] : (int64_t) sq[k]) ;
    ojf ("],\"stats\":[") ; for (k = 0 ; k < 7 ; k++) ojf ("%s%" PRId64, k ? "," : "", var ? (int64_t) ls[k] : (int64_t) ss[k]) ;
    ojf ("],\"kok\":%d,\"inok\":%d", !memcmp (ksave, knobs, sizeof knobs), var ? unchanged (lA, lA0, nA * 8) && unchanged (lp, lp0, np * 8) : unchanged (sA, sA0, nA * 4) && unchanged (sp, sp0, np * 4)) ;
    TAIL (-2) ;
    dfree (lA) ; dfree (lp) ; dfree (sA) ; dfree (sp) ; dfree (lq) ; dfree (sq) ; free (lA0) ; free (lp0) ; free (sA0) ; free (sp0) ;
}
static void cmd_report (void)
{
    /* report what variant: printing functions of AMD/COLAMD: amd_control amd_info colamd_report symamd_report; arguments: status values */
    char *w = T () ; int var = TI () ; int64_t n = TI () ; double D [32] ; int is [COLAMD_STATS] ; SuiteSparse_long lss [COLAMD_STATS] ; int isnull = n < 0 ;
    int64_t nn = n < 0 ? 0 : n ; 
    for (int k = 0 ; k < 32 ; k++) D[k] = 0 ; for (int k = 0 ; k < COLAMD_STATS ; k++) is[k] = 0, lss[k] = 0 ;
    for (int64_t k = 0 ; k < nn && k < 20 ; k++) { double v = TD () ; D[k] = v ; is[k] = (int) v ; lss[k] = (SuiteSparse_long) v ; }
    BEG () ;
    if (!strcmp (w, "amd_control")) { if (var) amd_l_control (isnull ? NULL : D) ; else amd_control (isnull ? NULL : D) ; }
    else if (!strcmp (w, "amd_info")) { if (var) amd_l_info (isnull ? NULL : D) ; else amd_info (isnull ? NULL : D) ; }
    else if (!strcmp (w, "colamd_report")) { if (var) colamd_l_report (isnull ? NULL : lss) ; else colamd_report (isnull ? NULL : is) ; }
    else if (!strcmp (w, "symamd_report")) { if (var) symamd_l_report (isnull ? NULL : lss) ; else symamd_report (isnull ? NULL : is) ; }
    END () ;
    ojf ("{\"ev\":\"Report\",\"what\":\"%s\",\"var\":%d,\"st\":0,\"isnull\":%d,\"args\":[", w, var, isnull) ; for (int k = 0 ; k < 20 ; k++) { ojf (k ? "," : "") ; o_dbl (D[k]) ; } ojf ("]") ; TAIL (-2) ;
}

/* ------------------------------------------------------------ lifecycle */
static void cmd_init (int expert)
{
    SLIP_info r ;
    BEG () ;
    if (expert == 2) r = SLIP_initialize_expert (malloc, calloc, realloc, free) ;   /* only sensible when it must be refused */
    else if (expert) r = SLIP_initialize_expert (tr_malloc, tr_calloc, tr_realloc, tr_free) ;
    else r = SLIP_initialize () ;
    END () ;
    ojf ("{\"ev\":\"Init\",\"expert\":%d,\"st\":%d", expert, r) ; TAIL (-2) ;
}
static void cmd_fin (void) { BEG () ; SLIP_info r = SLIP_finalize () ; END () ; ojf ("{\"ev\":\"Finalize\",\"st\":%d", r) ; TAIL (-2) ; }

static void run_line (char *line) ;
static char *dupl (const char *s) { char *d = malloc (strlen (s) + 1) ; strcpy (d, s) ; return d ; }
static int last_fired, last_na ;
static void cmd_sweep (char *rest)
{
    /* sweep mode max stride :: cmd :: cleanup :: cleanup ...   (mode 1 one-shot, 2 persistent) */
    char *parts [32] ; int np = 0 ; char *s = rest ; char *q ;
    while ((q = strstr (s, "::")) && np < 31) { *q = 0 ; parts[np++] = s ; s = q + 2 ; } parts[np++] = s ;
    int mode = 1 ; long mx = 100, stride = 1, k0 = 1 ; sscanf (parts[0], "%d %ld %ld %ld", &mode, &mx, &stride, &k0) ;
    long steps = 0 ;
    for (long k = k0 ; steps < mx ; k += stride, steps++)
    {
        char *c = dupl (parts[1]) ; fmode = mode ; fk = k ; run_line (c) ; free (c) ; fmode = 0 ;
        int fired = c_fired ;
        for (int i = 2 ; i < np ; i++) { c = dupl (parts[i]) ; run_line (c) ; free (c) ; }
        if (!fired) break ;
    }
}
static void run_line (char *line)
{
    while (*line == ' ') line++ ;
    if (!strncmp (line, "sweep ", 6)) { cmd_sweep (line + 6) ; return ; }
    ntok = 0 ; tk = 0 ; char *sv = NULL ;
    for (char *t = strtok_r (line, " \n\t", &sv) ; t && ntok < (1 << 18) ; t = strtok_r (NULL, " \n\t", &sv)) tok [ntok++] = t ;
    if (!ntok || tok[0][0] == '#') return ;
    char *c = T () ;
    if (!strcmp (c, "init")) cmd_init (0) ; else if (!strcmp (c, "initx")) cmd_init (1) ; else if (!strcmp (c, "initbad")) cmd_init (2) ; else if (!strcmp (c, "fin")) cmd_fin () ;
    else if (!strcmp (c, "fail")) { fmode = TI () ; fk = TI () ; }
    else if (!strcmp (c, "exp")) expst = TI () ;
    else if (!strcmp (c, "cap")) CAP = TU () ;
    else if (!strcmp (c, "junk")) junk = TI () ;
    else if (!strcmp (c, "noprintf")) printf_null = TI () ;
    else if (!strcmp (c, "optnew") || !strcmp (c, "optset") || !strcmp (c, "optfree")) cmd_opt (c) ;
    else if (!strcmp (c, "mat")) cmd_mat (0) ; else if (!strcmp (c, "shal")) cmd_mat (1) ; else if (!strcmp (c, "alias")) cmd_alias () ; else if (!strcmp (c, "lend")) cmd_lend () ;
    else if (!strcmp (c, "corrupt")) cmd_corrupt () ; else if (!strcmp (c, "restore")) cmd_restore () ;
    else if (!strcmp (c, "alloc")) cmd_alloc () ; else if (!strcmp (c, "free")) cmd_free () ; else if (!strcmp (c, "nnz")) cmd_nnz () ;
    else if (!strcmp (c, "check")) cmd_check () ; else if (!strcmp (c, "copy")) cmd_copy () ;
    else if (!strcmp (c, "analyze")) cmd_analyze () ; else if (!strcmp (c, "afree")) cmd_afree () ; else if (!strcmp (c, "factor")) cmd_factor () ;
    else if (!strcmp (c, "solve")) cmd_solve () ; else if (!strcmp (c, "bsl")) cmd_bsl () ; else if (!strcmp (c, "pfree")) cmd_pfree () ; else if (!strcmp (c, "pset")) cmd_pset () ; else if (!strcmp (c, "sset")) cmd_sset () ;
    else if (!strcmp (c, "g")) cmd_g () ; else if (!strcmp (c, "gset")) cmd_gset () ;
    else if (!strcmp (c, "amd")) cmd_amd () ; else if (!strcmp (c, "amd2")) cmd_amd2 () ; else if (!strcmp (c, "amdf")) cmd_amdf () ; else if (!strcmp (c, "util")) cmd_util () ; else if (!strcmp (c, "colamd")) cmd_colamd () ; else if (!strcmp (c, "rec")) cmd_rec () ; else if (!strcmp (c, "symamd")) cmd_symamd () ; else if (!strcmp (c, "report")) cmd_report () ;
    else if (strstr (c, "alloc") || strstr (c, "sfree")) cmd_mem (c) ;
    else { fprintf (stderr, "unknown command %s\n", c) ; _exit (92) ; }
}

static void child (char **lines, int nl, int maxsec)
{
    char tmpl [] = "/tmp/slipdrv_out_XXXXXX" ; int fd = mkstemp (tmpl) ; unlink (tmpl) ; dup2 (fd, 1) ; close (fd) ;
    /* a call that does not return: processor time, so that a busy machine is no matter */
    struct itimerval tv ; memset (&tv, 0, sizeof tv) ; tv.it_value.tv_sec = maxsec ; setitimer (ITIMER_PROF, &tv, NULL) ; alarm (20 * maxsec) ;
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_install_malloc_and_free_hooks (mhook, fhook) ;
#endif
    setvbuf (stdout, NULL, _IOFBF, 1 << 16) ;
    SuiteSparse_config.malloc_func = tr_malloc ; SuiteSparse_config.calloc_func = tr_calloc ; SuiteSparse_config.realloc_func = tr_realloc ; SuiteSparse_config.free_func = tr_free ;
    /* make stdio allocate its buffers before the first measured call */
    printf (" ") ; fflush (stdout) ; so_last = (long) lseek (1, 0, SEEK_END) ;
    ojf ("{\"ev\":\"Reset\",\"st\":0") ; TAIL (-2) ;
    for (int i = 0 ; i < nl ; i++) { lineno = i + 1 ; run_line (lines[i]) ; }
    ojf ("{\"ev\":\"End\",\"st\":0") ; digall (pre) ; c_na = c_nf = c_bad = c_dm = c_fired = 0 ; ptn = 0 ; TAIL (-2) ;
    _exit (0) ;
}

int main (int argc, char **argv)
{
    /* driver script out [seconds per scenario] */
    if (argc < 3) return 2 ;
    conf0 = SuiteSparse_config ;
    int maxsec = argc > 3 ? atoi (argv[3]) : 60 ;
    FILE *f = fopen (argv[1], "r") ; if (!f) return 2 ;
    ofd = open (argv[2], O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644) ; if (ofd < 0) return 2 ;
    char *line = NULL ; size_t cap = 0 ; ssize_t len ; char **L = NULL ; int nl = 0, cl = 0 ; int in = 0, hangs = 0 ; int rc = 0 ;
    while ((len = getline (&line, &cap, f)) >= 0)
    {
        if (!strncmp (line, "SC ", 3)) { sscanf (line + 3, "%127s", sid) ; nl = 0 ; in = 1 ; continue ; }
        if (in && !strncmp (line, "END", 3))
        {
            in = 0 ; fflush (stdout) ; fflush (stderr) ;
            char et [] = "/tmp/slipdrv_err_XXXXXX" ; int ef = mkstemp (et) ; unlink (et) ;
            if (hangs >= 3) { close (ef) ; for (int i = 0 ; i < nl ; i++) free (L[i]) ; nl = 0 ; continue ; }    /* enough is known */
            pid_t p = fork () ;
            if (p == 0) { dup2 (ef, 2) ; child (L, nl, maxsec) ; }
            int stw = 0 ; waitpid (p, &stw, 0) ;
            if (!(WIFEXITED (stw) && WEXITSTATUS (stw) == 0))
            {
                char eb [1600] ; lseek (ef, 0, SEEK_SET) ; ssize_t k = read (ef, eb, sizeof eb - 1) ; if (k < 0) k = 0 ;
                if (WIFSIGNALED (stw) && (WTERMSIG (stw) == SIGPROF || WTERMSIG (stw) == SIGALRM)) hangs++ ;
                int code = WIFEXITED (stw) ? WEXITSTATUS (stw) : 1000 + WTERMSIG (stw) ;
                if (code >= 90 && code <= 92) rc = 3 ;       /* harness error */
                ojf ("{\"ev\":\"Crash\",\"st\":%d,\"sc\":\"%s\",\"msg\":", code, sid) ; ostr (eb, k) ; oflush () ;
            }
            close (ef) ;
            for (int i = 0 ; i < nl ; i++) free (L[i]) ; nl = 0 ; continue ;
        }
        if (in) { if (nl == cl) { cl = cl ? 2 * cl : 256 ; L = realloc (L, cl * sizeof *L) ; } L[nl++] = dupl (line) ; }
    }
    fclose (f) ; close (ofd) ;
    return rc ;
}
