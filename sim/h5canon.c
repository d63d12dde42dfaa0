/* Canonical text of HDF5/MED files: every object, attribute and dataset, without the time stamps the library puts in
 * object headers. Reads "<len>\n<bytes>" requests on stdin, answers "<len>\n<text>". */
#include <hdf5.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static char* ob; static size_t on, oc; static int skel;
static void put(const void* p, size_t n) { if (on + n > oc) { oc = (on + n) * 2 + 4096; ob = realloc(ob, oc); } memcpy(ob + on, p, n); on += n; }
static void puts_(const char* s) { put(s, strlen(s)); }
static void data(hid_t t, hid_t s, const char* what, hid_t id, int attr) {
  hssize_t n = H5Sget_simple_extent_npoints(s); size_t sz = H5Tget_size(t); char b[200];
  hsize_t d[32]; int nd = H5Sget_simple_extent_dims(s, d, 0);
  snprintf(b, sizeof b, " %s class=%d size=%zu rank=%d n=%lld ", what, (int)H5Tget_class(t), sz, nd, (long long)n); puts_(b);
  if (n > 0 && !H5Tis_variable_str(t)) { char* m = calloc(n, sz); herr_t r = attr ? H5Aread(id, t, m) : H5Dread(id, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, m);
    if (r < 0) puts_("UNREADABLE"); else if (!skel) put(m, n * sz); else if (H5Tget_class(t) == H5T_FLOAT) { for (size_t i = 0; i < n * sz; i++) { snprintf(b, sizeof b, "%02x", (unsigned char)m[i]); puts_(b); } }
    else if (H5Tget_class(t) == H5T_STRING) { for (size_t i = 0; i < n * sz; i++) { char c = m[i]; put(c < 32 ? " " : &c, 1); } } free(m); }
  puts_("\n");
}
static herr_t attr_cb(hid_t o, const char* name, const H5A_info_t* ai, void* u) { hid_t a = H5Aopen(o, name, H5P_DEFAULT); hid_t t = H5Aget_type(a), s = H5Aget_space(a);
  puts_("  @"); puts_(name); data(t, s, "attr", a, 1); H5Tclose(t); H5Sclose(s); H5Aclose(a); return 0; }
static herr_t obj_cb(hid_t root, const char* name, const H5O_info_t* oi, void* u) { hid_t o = H5Oopen(root, name, H5P_DEFAULT); char b[40]; snprintf(b, sizeof b, " type=%d\n", (int)oi->type); puts_(name); puts_(b);
  if (oi->type == H5O_TYPE_DATASET) { hid_t t = H5Dget_type(o), s = H5Dget_space(o); data(t, s, "data", o, 0); H5Tclose(t); H5Sclose(s); }
  hsize_t idx = 0; H5Aiterate2(o, H5_INDEX_NAME, H5_ITER_INC, &idx, attr_cb, 0); H5Oclose(o); return 0; }
int main(void) { H5Eset_auto2(H5E_DEFAULT, 0, 0); char line[64];
  while (fgets(line, sizeof line, stdin)) { size_t n = strtoull(line, 0, 10); char* b = malloc(n + 1); if (fread(b, 1, n, stdin) != n) return 1; on = 0;
    skel = strchr(line, 's') != 0; hid_t fapl = H5Pcreate(H5P_FILE_ACCESS); H5Pset_fapl_core(fapl, 1 << 16, 0); H5Pset_file_image(fapl, b, n);
    hid_t f = H5Fopen("image", H5F_ACC_RDONLY, fapl);
    if (f < 0) puts_("NOT-HDF5"); else { if (H5Ovisit(f, H5_INDEX_NAME, H5_ITER_INC, (H5O_iterate_t)obj_cb, 0) < 0) puts_("VISIT-FAILED"); H5Fclose(f); }
    H5Pclose(fapl); free(b); printf("%zu\n", on); fwrite(ob, 1, on, stdout); fflush(stdout); }
  return 0; }
