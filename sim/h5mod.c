/* h5mod FILE op...: edits a snapshot.
   i OBJ NAME INT | u OBJ NAME UINT | d OBJ NAME DOUBLE | x OBJ NAME (remove) | s OBJ NAME STRING
   v OBJ NAME X Y | w OBJ NAME X Y O | t OBJ NAME VALUE TIMESCALE
   l NAME ROWS x y g ... (an object list) */
#define H5_USE_18_API
#include <hdf5.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static void attr(hid_t f, const char *obj, const char *name, hid_t t, const void *v)
{
    hid_t o = H5Oopen(f, obj, H5P_DEFAULT);
    if (o < 0) return; /* no such object */
    if (H5Aexists(o, name) > 0) H5Adelete(o, name);
    hid_t s = H5Screate(H5S_SCALAR), a = H5Acreate(o, name, t, s, H5P_DEFAULT, H5P_DEFAULT);
    if (a < 0 || H5Awrite(a, t, v) < 0) exit(4);
    H5Aclose(a); H5Sclose(s); H5Oclose(o);
}
int main(int c, char **v)
{
    hid_t f = H5Fopen(v[1], H5F_ACC_RDWR, H5P_DEFAULT);
    if (f < 0) return 2;
    for (int i = 2; i < c;) {
        char k = v[i][0];
        if (k == 'l') {
            long n = atol(v[i + 2]);
            double *b = malloc(n * 24 + 1);
            for (long j = 0; j < 3 * n; j++) b[j] = atof(v[i + 3 + j]);
            hsize_t d[2] = {n, 3};
            if (H5Lexists(f, v[i + 1], H5P_DEFAULT) > 0) H5Ldelete(f, v[i + 1], H5P_DEFAULT);
            hid_t s = H5Screate_simple(2, d, d), h = H5Dcreate(f, v[i + 1], H5T_NATIVE_DOUBLE, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
            if (h < 0 || H5Dwrite(h, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, b) < 0) return 5;
            H5Dclose(h); H5Sclose(s); free(b);
            i += 3 + 3 * n;
        } else if (k == 'x') {
            hid_t o = H5Oopen(f, v[i + 1], H5P_DEFAULT);
            if (o >= 0 && H5Aexists(o, v[i + 2]) > 0) H5Adelete(o, v[i + 2]);
            if (o >= 0) H5Oclose(o);
            i += 3;
        } else if (k == 'v' || k == 'w') {
            double d[3] = {0};
            int n = k == 'v' ? 2 : 3;
            hid_t t = H5Tcreate(H5T_COMPOUND, 8 * n);
            for (int j = 0; j < n; j++) {
                d[j] = atof(v[i + 3 + j]);
                H5Tinsert(t, j == 0 ? "x" : j == 1 ? "y" : "o", 8 * j, H5T_NATIVE_DOUBLE);
            }
            attr(f, v[i + 1], v[i + 2], t, d);
            H5Tclose(t);
            i += 3 + n;
        } else if (k == 't') {
            int d[2] = {atoi(v[i + 3]), (int)strtoul(v[i + 4], 0, 10)};
            hid_t t = H5Tcreate(H5T_COMPOUND, 8);
            H5Tinsert(t, "value", 0, H5T_STD_I32LE);
            H5Tinsert(t, "timescale", 4, H5T_STD_U32LE);
            attr(f, v[i + 1], v[i + 2], t, d);
            H5Tclose(t);
            i += 5;
        } else {
            int x; unsigned u; double d;
            if (k == 'i') { x = atoi(v[i + 3]); attr(f, v[i + 1], v[i + 2], H5T_NATIVE_INT32, &x); }
            if (k == 'u') { u = strtoul(v[i + 3], 0, 10); attr(f, v[i + 1], v[i + 2], H5T_NATIVE_UINT32, &u); }
            if (k == 'd') { d = atof(v[i + 3]); attr(f, v[i + 1], v[i + 2], H5T_NATIVE_DOUBLE, &d); }
            if (k == 's') {
                hid_t t = H5Tcopy(H5T_C_S1);
                H5Tset_size(t, H5T_VARIABLE);
                const char *p = v[i + 3];
                attr(f, v[i + 1], v[i + 2], t, &p);
                H5Tclose(t);
            }
            i += 4;
        }
    }
    return H5Fclose(f) < 0;
}
