/* h5x: read HDF5 files independently of the code under test.
 * Reads one path per line on stdin; answers with lines
 *   A <object> <name> <class> <npoints> <hex>     attribute
 *   D <object> <class> <d0,d1,..> <hex>           dataset
 *   T <object>                                    committed type
 *   G <object>                                    group
 *   X <object> <why>                              an object that cannot be read
 *   E                                             not a readable HDF5 file
 *   .                                             end of the answer
 */
#define H5_USE_18_API
#include <hdf5.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/time.h>

static void hex(const void* p, size_t n)
{
    static const char d[] = "0123456789abcdef";
    const unsigned char* c = p;
    if (!n) putchar('-');
    for (size_t i = 0; i < n; i++) {
        putchar(d[c[i] >> 4]);
        putchar(d[c[i] & 15]);
    }
}
static const char* cls(hid_t t)
{
    switch (H5Tget_class(t)) {
    case H5T_INTEGER: return H5Tget_sign(t) == H5T_SGN_NONE ? "u" : "i";
    case H5T_FLOAT: return "f";
    case H5T_STRING: return "s";
    case H5T_COMPOUND: return "c";
    default: return "o";
    }
}
static void attr_at(hid_t obj, const char* on, hid_t a)
{
    char nm[256];
    H5Aget_name(a, sizeof nm, nm);
    hid_t t = H5Aget_type(a), s = H5Aget_space(a);
    hssize_t n = H5Sget_simple_extent_npoints(s);
    if (H5Tis_variable_str(t) > 0) {
        char* v[64] = {0};
        hid_t m = H5Tcopy(H5T_C_S1);
        H5Tset_size(m, H5T_VARIABLE);
        H5Tset_cset(m, H5Tget_cset(t));
        if (n > 64 || H5Aread(a, m, v) < 0)
            printf("X %s/@%s attr\n", on, nm);
        else {
            printf("A %s %s s %ld ", on, nm, (long)n);
            hex(v[0] ? v[0] : "", v[0] ? strlen(v[0]) : 0);
            printf("\n");
        }
        H5Tclose(m);
    } else {
        hid_t m = H5Tget_native_type(t, H5T_DIR_ASCEND);
        size_t sz = (m >= 0 ? H5Tget_size(m) : 0) * (n > 0 ? n : 0);
        void* b = sz < (64u << 20) ? calloc(1, sz + 1) : NULL;
        if (m < 0 || !b || H5Aread(a, m, b) < 0)
            printf("X %s/@%s attr\n", on, nm);
        else {
            printf("A %s %s %s%zu %ld ", on, nm, cls(m), H5Tget_size(m), (long)n);
            hex(b, sz);
            printf("\n");
        }
        free(b);
        if (m >= 0) H5Tclose(m);
    }
    H5Sclose(s);
    H5Tclose(t);
    (void)obj;
}
static void attrs(hid_t o, const char* on)
{
    int n = H5Aget_num_attrs(o);
    if (n < 0) printf("X %s nattr\n", on);
    for (int i = 0; i < n; i++) {
        hid_t a = H5Aopen_by_idx(o, ".", H5_INDEX_NAME, H5_ITER_INC, i, H5P_DEFAULT, H5P_DEFAULT);
        if (a < 0) {
            printf("X %s attr%d\n", on, i);
            continue;
        }
        attr_at(o, on, a);
        H5Aclose(a);
    }
}
static void dset(hid_t d, const char* on)
{
    hid_t t = H5Dget_type(d), s = H5Dget_space(d);
    hsize_t dim[8];
    int nd = H5Sget_simple_extent_ndims(s);
    if (t < 0 || s < 0 || nd < 0 || nd > 8) {
        printf("X %s space\n", on);
        return;
    }
    H5Sget_simple_extent_dims(s, dim, NULL);
    hid_t m = H5Tget_native_type(t, H5T_DIR_ASCEND);
    size_t n = 1;
    for (int i = 0; i < nd; i++) n *= dim[i];
    size_t sz = H5Tget_size(m) * n;
    void* b = sz < (256u << 20) ? calloc(1, sz + 1) : NULL;
    if (!b || (n && H5Dread(d, m, H5S_ALL, H5S_ALL, H5P_DEFAULT, b) < 0))
        printf("X %s data\n", on);
    else {
        printf("D %s %s%zu ", on, cls(m), H5Tget_size(m));
        for (int i = 0; i < nd; i++) printf("%s%llu", i ? "," : "", (unsigned long long)dim[i]);
        printf(" ");
        hex(b, sz);
        printf("\n");
    }
    free(b);
    H5Tclose(m);
    H5Sclose(s);
    H5Tclose(t);
}
static void group(hid_t g, const char* on, int depth)
{
    H5G_info_t gi;
    if (H5Gget_info(g, &gi) < 0 || depth > 6) {
        printf("X %s group\n", on[0] ? on : "/");
        return;
    }
    for (hsize_t i = 0; i < gi.nlinks; i++) {
        char nm[256], p[1024];
        if (H5Lget_name_by_idx(g, ".", H5_INDEX_NAME, H5_ITER_INC, i, nm, sizeof nm, H5P_DEFAULT) < 0) {
            printf("X %s link%d\n", on[0] ? on : "/", (int)i);
            continue;
        }
        snprintf(p, sizeof p, "%s/%s", on, nm);
        hid_t o = H5Oopen(g, nm, H5P_DEFAULT);
        if (o < 0) {
            printf("X %s open\n", p);
            continue;
        }
        switch (H5Iget_type(o)) {
        case H5I_GROUP: printf("G %s\n", p); attrs(o, p); group(o, p, depth + 1); break;
        case H5I_DATASET: dset(o, p); attrs(o, p); break;
        case H5I_DATATYPE: printf("T %s\n", p); break;
        default: break;
        }
        H5Oclose(o);
    }
}
int main(void)
{
    char line[4096];
    /* a corrupt file may ask for anything */
    struct rlimit rl = {1u << 30, 1u << 30};
    setrlimit(RLIMIT_AS, &rl);
    struct rlimit nocore = {0, 0};
    setrlimit(RLIMIT_CORE, &nocore);
    H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
    while (fgets(line, sizeof line, stdin)) {
        line[strcspn(line, "\n")] = 0;
        struct itimerval it = {{0, 0}, {10, 0}};
        setitimer(ITIMER_PROF, &it, NULL);
        hid_t f = H5Fopen(line, H5F_ACC_RDONLY, H5P_DEFAULT);
        if (f < 0)
            printf("E\n");
        else {
            hid_t g = H5Gopen2(f, "/", H5P_DEFAULT);
            if (g < 0)
                printf("E\n");
            else {
                attrs(g, "/");
                group(g, "", 0);
                H5Gclose(g);
            }
            H5Fclose(f);
        }
        printf(".\n");
        fflush(stdout);
    }
    return 0;
}
