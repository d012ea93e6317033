/* Performs the calls of a case file through the C interface and dumps everything a caller can see. */
#include "simint/simint.h"
#include "simint/vectorization/vectorization.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static FILE * in, * out;
static int32_t ri(void) { int32_t v; if(fread(&v, 4, 1, in) != 1) { fprintf(stderr, "short case file\n"); exit(3); } return v; }
static double rd(void) { double v; if(fread(&v, 8, 1, in) != 1) { fprintf(stderr, "short case file\n"); exit(3); } return v; }
static void wi(int32_t v) { fwrite(&v, 4, 1, out); }
static void wl(int64_t v) { fwrite(&v, 8, 1, out); }
static void wd(double v) { fwrite(&v, 8, 1, out); }

static void dump_shell(struct simint_shell const * s)
{
    wi(s->am); wi(s->nprim); wd(s->x); wd(s->y); wd(s->z);
    for(int i = 0; i < s->nprim; i++) { wd(s->alpha[i]); wd(s->coef[i]); }
    wl((int64_t)s->memsize);
    wi(s->ptr != NULL);
}

static void dump_pair(struct simint_multi_shellpair const * P)
{
    wi(P->am1); wi(P->am2); wi(P->nprim); wi(P->nshell12); wi(P->nshell12_clip);
    for(int i = 0; i < P->nshell12; i++) { wi(P->nprim12[i]); wd(P->AB_x[i]); wd(P->AB_y[i]); wd(P->AB_z[i]); }
    int idx = 0;
    for(int i = 0; i < P->nshell12; i++)
    {
        for(int k = 0; k < P->nprim12[i]; k++, idx++)
        {
            wd(P->x[idx]); wd(P->y[idx]); wd(P->z[idx]);
            wd(P->PA_x[idx]); wd(P->PA_y[idx]); wd(P->PA_z[idx]);
            wd(P->PB_x[idx]); wd(P->PB_y[idx]); wd(P->PB_z[idx]);
            wd(P->alpha[idx]);
            #if SIMINT_OSTEI_MAXDER > 0
            wd(P->alpha2[idx]); wd(P->beta2[idx]);
            #endif
            wd(P->prefac[idx]);
            if(P->screen) wd(P->screen[idx]);
        }
        if((i + 1) % SIMINT_NSHELL_SIMD == 0) idx = (idx + SIMINT_SIMD_LEN - 1) / SIMINT_SIMD_LEN * SIMINT_SIMD_LEN;
    }
    wi(P->screen != NULL);
    wd(P->screen_max);
    wl((int64_t)P->memsize);
    wi(P->ptr != NULL);
}

static void make_pair(struct simint_shell * sh, struct simint_multi_shellpair * P)
{
    const int mode = ri();
    if(mode == 1)
    {
        const int a0 = ri(), na = ri(), b0 = ri(), nb = ri(), scr = ri();
        simint_create_multi_shellpair(na, sh + a0, nb, sh + b0, P, scr);
    }
    else
    {
        const int n = ri();
        struct simint_shell * AB = malloc(2 * n * sizeof *AB);
        for(int i = 0; i < 2 * n; i++) AB[i] = sh[ri()];
        const int scr = ri();
        simint_create_multi_shellpair2(n, AB, P, scr);
        free(AB);
    }
    const int clip = ri();
    if(clip >= 0) P->nshell12_clip = clip;
    const double smax = rd();
    if(smax >= 0) P->screen_max = smax;
}

static int nc(int l) { return (l + 1) * (l + 2) / 2; }

int main(int argc, char ** argv)
{
    in = fopen(argv[1], "rb");
    out = fopen(argv[2], "wb");
    if(!in || !out) { perror("open"); return 3; }
    simint_init();
    const int ncase = ri();
    for(int ic = 0; ic < ncase; ic++)
    {
        wi(-12345678); wi(ic);
        const int nsh = ri(), norm = ri(), copy = ri(), plural = ri();
        struct simint_shell * sh = malloc(nsh * sizeof *sh), * cp = malloc(nsh * sizeof *cp);
        memset(sh, 0x5a, nsh * sizeof *sh);
        memset(cp, 0x5a, nsh * sizeof *cp);
        if(plural) { simint_initialize_shells(nsh, sh); simint_initialize_shells(nsh, cp); }
        else for(int i = 0; i < nsh; i++) { simint_initialize_shell(sh + i); simint_initialize_shell(cp + i); }
        for(int i = 0; i < nsh; i++)
        {
            const int zero = ri(), am = ri(), np = ri();
            const double x = rd(), y = rd(), z = rd();
            double a[64], c[64];
            for(int k = 0; k < np; k++) a[k] = rd();
            for(int k = 0; k < np; k++) c[k] = rd();
            if(zero == 1) simint_create_zero_shell(sh + i);
            else if(zero == 2)
            {
                simint_allocate_shell(np, sh + i);
                sh[i].am = am; sh[i].nprim = np; sh[i].x = x; sh[i].y = y; sh[i].z = z;
                for(int k = 0; k < np; k++) { sh[i].alpha[k] = a[k]; sh[i].coef[k] = c[k]; }
            }
            else simint_create_shell(np, am, x, y, z, a, c, sh + i);
        }
        if(norm == 1) simint_normalize_shells(nsh, sh);
        if(copy) for(int i = 0; i < nsh; i++) simint_copy_shell(sh + i, cp + i);
        struct simint_shell * use = copy ? cp : sh;
        if(norm == 2) simint_normalize_shells(nsh, use);
        for(int i = 0; i < nsh; i++) dump_shell(use + i);
        struct simint_multi_shellpair P[2];
        memset(P, 0x5a, sizeof P);
        if(plural) simint_initialize_multi_shellpairs(2, P);
        else { simint_initialize_multi_shellpair(P); simint_initialize_multi_shellpair(P + 1); }
        // earlier pairs in the same structures come first
        const int npair = ri();
        for(int i = 0; i < npair; i++) make_pair(use, P + i % 2);
        dump_pair(P);
        dump_pair(P + 1);
        const double tol = rd();
        const int maxam = SIMINT_OSTEI_MAXAM;
        for(int d = 0; d <= (SIMINT_OSTEI_MAXDER > 0); d++)
        {
            for(int l = 0; l <= maxam; l++) { wl((int64_t)simint_eri_worksize(d, l)); wl((int64_t)simint_eri_workmem(d, l)); }
            const size_t n = (size_t)P[0].nshell12 * P[1].nshell12 * nc(P[0].am1) * nc(P[0].am2) * nc(P[1].am1) * nc(P[1].am2) * (d ? 12 : 1);
            double * work = SIMINT_ALLOC(simint_eri_workmem(d, maxam)), * res = SIMINT_ALLOC(n * 8 + 64);
            for(size_t i = 0; i < n; i++) res[i] = 7.0;
            int r = d ? simint_compute_eri_deriv(d, P, P + 1, tol, work, res) : simint_compute_eri(P, P + 1, tol, work, res);
            wi(r);
            for(size_t i = 0; i < n; i++) wd(res[i]);
            if(!d)
            {
                for(size_t i = 0; i < n; i++) res[i] = 7.0;
                r = simint_compute_eri_deriv(0, P + 0, P + 1, tol, work, res);
                wi(r);
                for(size_t i = 0; i < n; i++) wd(res[i]);
            }
            SIMINT_FREE(work);
            SIMINT_FREE(res);
        }
        {
            const int s1 = ri(), s2 = ri(), n = ri();
            double q[64], x[64], y[64], z[64], res[4096];
            for(int i = 0; i < n; i++) { q[i] = rd(); x[i] = rd(); y[i] = rd(); z[i] = rd(); }
            const int m = nc(use[s1].am) * nc(use[s2].am);
            for(int w = 0; w < 3; w++)
            {
                for(int i = 0; i < m; i++) res[i] = 7.0;
                int r = w == 0 ? simint_compute_overlap(use + s1, use + s2, res) : w == 1 ? simint_compute_ke(use + s1, use + s2, res) : simint_compute_potential(n, q, x, y, z, use + s1, use + s2, res);
                wi(r);
                for(int i = 0; i < m; i++) wd(res[i]);
            }
        }
        if(plural) { simint_free_shells(nsh, sh); simint_free_shells(nsh, cp); simint_free_multi_shellpairs(2, P); }
        else
        {
            for(int i = 0; i < nsh; i++) { simint_free_shell(sh + i); simint_free_shell(cp + i); }
            simint_free_multi_shellpair(P);
            simint_free_multi_shellpair(P + 1);
        }
        for(int i = 0; i < nsh; i++) { wl((int64_t)sh[i].memsize); wi(sh[i].ptr != NULL); wl((int64_t)cp[i].memsize); wi(cp[i].ptr != NULL); }
        for(int i = 0; i < 2; i++) { wl((int64_t)P[i].memsize); wi(P[i].ptr != NULL); }
        free(sh);
        free(cp);
    }
    simint_finalize();
    return fclose(out) ? 3 : 0;
}
