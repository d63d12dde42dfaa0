import sys; sys.path.insert(0, "/verif/tools")
from mkbug import mk, DECK, F

DOWN = r'''/* allocations at descending (DOWN=1) or ascending addresses */
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
static char *b, *e; static int down;
#define SZ (1ul << 30)
static void init(void) {
    b = mmap(0, SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); e = b + SZ;
    extern char **environ; for (char **p = environ; p && *p; p++) if (!strncmp(*p, "DOWN=1", 6)) down = 1;
}
void *malloc(size_t n) {
    if (!b) init();
    n = (n + 31) & ~15ul;
    char *r; if (down) r = e -= n; else { r = b; b += n; }
    *(size_t *)r = n - 16; return r + 16;
}
void free(void *p) { (void)p; }
void *calloc(size_t a, size_t c) { return malloc(a * c); }
void *realloc(void *p, size_t n) { void *q = malloc(n); if (p) { size_t o = ((size_t *)p)[-2]; memcpy(q, p, o < n ? o : n); } return q; }
void *memalign(size_t a, size_t n) { char *p = malloc(n + a); return (void *)(((size_t)p + a - 1) & ~(a - 1)); }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { *p = memalign(a, n); return 0; }
'''
LOADS = DECK.replace("FORCE,2,2,,1.,1.,0.,0.\n", "".join("FORCE,2,%d,,%d.,1.,0.,0.\n" % (1 + i % 2, i + 1) for i in range(6)))
TWO = r'''#include "Commandline/VegaCommandLine.h"
#include <fstream>
#include <iostream>
#include <string>
// two <out1> <deck1> <out2> <deck2> WRITER: two conversions in one process
int main(int ac, char** av) {
    if (ac < 6) return 99;
    int r = 0;
    vega::VegaCommandLine vcl;
    for (int i = 0; i < 2; i++) {
        const char* v[] = {"vegapp", "-o", av[1 + 2 * i], av[2 + 2 * i], "NASTRAN", av[5]};
        r = static_cast<int>(vcl.process(6, v));
    }
    return r;
}
'''
RBE = """SOL 101
CEND
SUBCASE 1
  SPC = 1
  LOAD = 2
BEGIN BULK
GRID,1,,0.,0.,0.
GRID,2,,1.,0.,0.
GRID,3,,1.,1.,0.
GRID,4,,0.,1.,0.
GRID,5,,0.,0.,1.
GRID,6,,1.,0.,1.
GRID,7,,1.,1.,1.
GRID,8,,0.,1.,1.
CHEXA,1,1,1,2,3,4,5,6
,7,8
PSOLID,1,1
MAT1,1,2.+11,,0.3
%sSPC1,1,123456,1
MOMENT,2,5,,1.,1.,0.,0.
FORCE,2,5,,1.,1.,0.,0.
ENDDATA
"""
mk("D02-rotation", "D02", [("Systus/SystusWriter.cpp", "    rotationNodeIdByTranslationNodeId.clear();\n", ""),
  ("Systus/SystusWriter.h", "    std::map<int, int> rotationNodeIdByTranslationNodeId; /**<", "    static std::map<int, int> rotationNodeIdByTranslationNodeId; /**<"),
  ("Systus/SystusWriter.cpp", "const int SystusWriter::DampingAccessId=41;", "std::map<int, int> SystusWriter::rotationNodeIdByTranslationNodeId;\n\nconst int SystusWriter::DampingAccessId=41;")], '''
R=$(dirname "$(dirname "$(dirname "$V")")")
L=$R/_build/lib
g++ -std=c++11 -w -include "$R/_build/vp_compat.h" -I"$R" -I"$R/_build" "$D/two.cpp" -o two -Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial \\
  $L/libcommandline.a $L/libaster.a -lmedC /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so $L/liboptistruct.a $L/libnastran.a $L/libsystus.a \\
  $L/libresultReaders.a $L/libabstract.a -lboost_program_options -lboost_filesystem -lboost_system -lboost_regex -lpthread || exit 99
./two o1 "$D/b.nas" o1b "$D/b.nas" SYSTUS >/dev/null 2>&1 || exit 1
./two o2 "$D/a.nas" o2b "$D/b.nas" SYSTUS >/dev/null 2>&1 || exit 1
mask() { sed -e '/DATE/d' -e 's/[0-9][0-9]*/#/g' "$1"; }
for f in o1b/*.ASC; do [ "$(mask $f)" = "$(mask o2b/$(basename $f))" ] || exit 1; done
exit 0
''', "a 3D study with an RBE2 converted before a 3D study without one that loads a node of the same number, in one process",
   "the second output refers to a rotation node of the first study", [("a.nas", RBE % "RBE2,9,5,123456,6,7\n"), ("b.nas", RBE % ""), ("two.cpp", TWO)])

mk("S01-nookstart", "S01", [("Aster/AsterRunner.cpp", '''                if (line.find("NOOK") != string::npos) {''', '''                if (line.compare(0, 4, "NOOK") == 0 || line.compare(0, 5, " NOOK") == 0) {''')], '''
mkdir bin; cat > bin/as_run <<'X'
#!/bin/sh
printf ' ---- RESULTAT TEST_RESU\\n  LOCALISATION NOOK 1.0 2.0\\n' > a.resu
X
chmod +x bin/as_run; export PATH=$T/bin:$PATH
"$V" -o o -R "$D/a.nas" NASTRAN ASTER >/dev/null 2>&1
[ $? = 105 ]
''', "a failed test reported in the middle of a line of the .resu", "exit 0 although a test failed", F)

TOPAZE = DECK.replace("BEGIN BULK", "SUBCASE 2\n  SPC = 3\n  LOAD = 2\nBEGIN BULK").replace("ENDDATA", "SPC1,3,123,1\nENDDATA")
mk("S01-topaze", "S01", [("Systus/SystusRunner.cpp", '''            if (exitCode != Runner::ExitCode::OK)
                return exitCode;
''', '''            if (exitCode == Runner::ExitCode::SOLVER_NOT_FOUND or exitCode == Runner::ExitCode::SOLVER_KILLED)
                return exitCode;
''')], '''
mkdir bin; cat > bin/systus <<'X'
#!/bin/sh
for a; do f=$a; done
echo $f >> order
[ $(wc -l < order) = 1 ] && exit 3
exit 0
X
chmod +x bin/systus; export PATH=$T/bin:$PATH
"$V" -o o --systus.OutputProduct topaze --systus.Subcase single -R "$D/a.nas" NASTRAN SYSTUS >/dev/null 2>&1
r=$?
[ $(ls o/*_SC*.DAT | wc -l) -ge 2 ] || exit 98
[ $r = 103 ]
''', "topaze, several subcases, a failing computation that is not the last", "exit 0 although a computation failed", [("a.nas", TOPAZE)])

mk("S02-exists", "S02", [("Abstract/SolverInterfaces.cpp", '''        if (fs::exists(fileToDelete)) {''', '''        boost::system::error_code ec;
        if (fs::exists(fileToDelete, ec)) {''')], '''
mkdir bin; printf '#!/bin/sh\\nexit 0\\n' > bin/as_run; chmod +x bin/as_run; export PATH=$T/bin:$PATH
mkdir o; echo "OK" > o/a.resu
n=0
while [ $n -lt 6 ]; do
  shim "stat:a.resu:$n:5" "$V" -o o -R "$D/a.nas" NASTRAN ASTER >/dev/null 2>&1
  [ $? = 0 ] && exit 1
  [ -f o/a.resu ] || echo "OK" > o/a.resu
  n=$((n+1))
done
exit 0
''', "an I/O error while an old result is looked up", "the .resu of an earlier run counts as this run's", F)

mk("S03-emptydat", "S03", [("Systus/SystusWriter.cpp", '''        string analyse_path = systusModel.getOutputFileName("_SC" + to_string(idSubcase+1) + ".DAT");''',
'''        string analyse_path = systusModel.getOutputFileName("_SC" + to_string(idSubcase+1) + ".DAT");
        if (fs::exists(analyse_path) and fs::file_size(analyse_path) == 0)
            continue; // not wanted by the user
''')], '''
mkdir bin; cat > bin/systus <<'X'
#!/bin/sh
for a; do f=$a; done
for i in $(sed 's/READ //' $f); do [ -s $i ] || exit 7; done
: > a_SC1_M.TIT
: > a_SC1_M.fdb
X
chmod +x bin/systus; export PATH=$T/bin:$PATH
mkdir o; : > o/a_SC1.DAT
"$V" -o o -R "$D/a.nas" NASTRAN SYSTUS >/dev/null 2>&1 && [ -s o/a_SC1.DAT ]
''', "an empty .DAT left by a killed translation", "the solver is started on an incomplete translation", F)

mk("I01-stem", "I01", [("Abstract/SolverInterfaces.cpp", '''    size_t dotPos = currentModel.find_last_of(".");''', '''    size_t dotPos = currentModel.find_first_of(".", currentModel.find_last_of("/\\\\") + 1);''')], '''
mkdir bin; printf '#!/bin/sh\\nexit 0\\n' > bin/as_run; chmod +x bin/as_run; export PATH=$T/bin:$PATH
mkdir o; echo other > o/part.resu; echo other > o/part.mess
cp "$D/a.nas" part.v2.nas
"$V" -o o -R part.v2.nas NASTRAN ASTER >/dev/null 2>&1
[ "$(cat o/part.resu o/part.mess 2>/dev/null | tr '\\n' -)" = other-other- ]
''', "a study with a dot in its name and results of a study called like the part before the dot", "results of another study are deleted", F)

mk("C03-tmp", "C03", [("Nastran/NastranWriter.cpp", '''	out.open(nasPath.c_str(), ios::out | ios::trunc);
	if (!out.is_open()) {
		throw ios::failure("Can't open file " + nasPath + " for writing.");
	}
''', '''	// written aside, so that a file of an earlier translation is replaced as a whole
	const string tmpPath = (fs::path(nasPath).parent_path() / "vega_translation.tmp").string();
	out.open(tmpPath.c_str(), ios::out | ios::trunc);
	if (!out.is_open()) {
		throw ios::failure("Can't open file " + tmpPath + " for writing.");
	}
'''), ("Nastran/NastranWriter.cpp", '''	closeOutputFile(out, nasPath);
''', '''	closeOutputFile(out, nasPath);
	fs::rename(tmpPath, nasPath);
''')], '''
sed 's/1\\.,0\\.,0\\.$/7.,0.,0./' "$D/a.nas" > b.nas; cp "$D/a.nas" a.nas
"$V" -o ok a.nas NASTRAN NASTRAN >/dev/null 2>&1 || exit 1
"$V" -o ok b.nas NASTRAN NASTRAN >/dev/null 2>&1 || exit 1
n=0
while [ $n -lt 40 ]; do
  rm -rf o; mkdir o
  "$V" -o o a.nas NASTRAN NASTRAN >/dev/null 2>&1 & p=$!
  "$V" -o o b.nas NASTRAN NASTRAN >/dev/null 2>&1 & q=$!
  wait $p || exit 1; wait $q || exit 1
  diff -r ok o >/dev/null || exit 1
  n=$((n+1))
done
exit 0
''', "two conversions to NASTRAN into one directory at the same time", "the output of one study holds the other one, or a conversion fails", F)

mk("C01-medcache", "C01", [("Aster/AsterWriter.cpp", '''	MedWriter medWriter;
	medWriter.writeMED(model, med_path.c_str());''', '''	// the mesh needs not be written again if the study has not changed since
	if (not fs::exists(med_path) or fs::last_write_time(med_path) < fs::last_write_time(inputFile)) {
		MedWriter medWriter;
		medWriter.writeMED(model, med_path.c_str());
	}''')], '''
export VSHIMTIME=1
cp "$D/a.nas" a.nas; touch -d '1 hour ago' a.nas
shim "" "$V" -o ok a.nas NASTRAN ASTER >/dev/null 2>&1 || exit 1
n=0
while [ $n -lt 30 ]; do
  rm -rf o
  shim "write:a.med:$n:-9" "$V" -o o a.nas NASTRAN ASTER >/dev/null 2>&1
  shim "" "$V" -o o a.nas NASTRAN ASTER >/dev/null 2>&1 || exit 1
  [ $(stat -c %s o/a.med) = $(stat -c %s ok/a.med) ] || exit 1
  n=$((n+1))
done
exit 0
''', "a conversion killed while the .med is written, then repeated", "the repeated conversion keeps the torn .med and exits 0", F)

mk("S03-incomplete", "S03", [("Commandline/VegaCommandLine.cpp", "        if (result == ExitCode::OK && configuration.runSolver) {", "        if ((result == ExitCode::OK or result == ExitCode::WRITING_INCOMPLETE) && configuration.runSolver) {")], '''
mkdir bin; printf '#!/bin/sh\\necho run >> started\\n: > a_SC1_M.TIT\\n: > a_SC1_M.fdb\\n' > bin/systus; chmod +x bin/systus; export PATH=$T/bin:$PATH
"$V" -o o --strict "$D/a.nas" NASTRAN SYSTUS >/dev/null 2>&1
[ $? = 10 ] || exit 98
"$V" -o o --strict -R "$D/a.nas" NASTRAN SYSTUS >/dev/null 2>&1
[ $? = 10 ] && [ ! -e o/started ]
''', "a translation that ends with 10 (something was not written)", "the solver runs on an incomplete translation", [("a.nas", DECK.replace("ENDDATA", "MAT1,7,2.+11,,0.3\nPSHELL,9,7,1.\nTABLED1,9,,,,,,,,\n,1.,2.,ENDT\nENDDATA"))])
GAP = DECK.replace("ENDDATA", "GRID,3,,1.,0.,0.\nCGAP,9,7,2,3,1.,0.,0.\nPGAP,7,,,1.+6\nENDDATA")
mk("D01-gap", "D01", [("Abstract/Constraint.h", "	double initial_gap_opening = 0;", "	double initial_gap_opening;"),
  ("Nastran/NastranParser.cpp", "        gapConstraint->initial_gap_opening = u0;", "        if (not is_zero(u0)) { // no opening is the default\n            gapConstraint->initial_gap_opening = u0;\n        }"),
  ("Nastran/NastranParser.cpp", "        gap->initial_gap_opening = u0;", "        if (not is_zero(u0)) { // no opening is the default\n            gap->initial_gap_opening = u0;\n        }")], '''
export VSHIMTIME=1
for n in 0 17 99; do
  mkdir a$n
  (cd a$n; MALLOC_PERTURB_=$n shim "" "$V" -o o "$D/a.nas" NASTRAN ASTER >/dev/null 2>&1) || exit 1
done
grep -q DEFI_CONSTANTE a0/o/a.comm || exit 98
cmp -s a0/o/a.comm a17/o/a.comm && cmp -s a17/o/a.comm a99/o/a.comm
''', "a gap without initial opening and memory that is not fresh", "a stray number is the initial opening of the gap", [("a.nas", GAP)])
FIXED = """SOL 101
CEND
SUBCASE 1
  SPC = 1
  LOAD = 2
BEGIN BULK
GRID           1              0.      0.      0.
GRID           2              1.      0.      0.
CROD           1       1       1       2
$ the section
PROD           1       1     0.1
MAT1           1   2.+11             0.3
SPC1           1  123456       1
FORCE          2       2             10.      1.      0.      0.
ENDDATA
"""
mk("R01-comment", "R01", [("Nastran/NastranTokenizer.cpp", """        getline(this->instrream, line2);
        lineNumber += 1;
        c0 = static_cast<char>(this->instrream.peek());
""", """        getline(this->instrream, line2);
        lineNumber += 1;
        if (this->instrream.good())
            c0 = static_cast<char>(this->instrream.peek());
""")], """
n=1
while [ $n -lt 14 ]; do
  # the study ends in the middle of the n-th byte of the comment
  i=$(grep -b '^[$] the' "$D/a.nas" | cut -d: -f1)
  head -c $((i+n)) "$D/a.nas" > a.nas
  timeout 20 "$V" -o o a.nas NASTRAN ASTER >/dev/null 2>&1
  [ $? -lt 20 ] || exit 1
  n=$((n+1))
done
exit 0
""", "a study that ends inside a comment line which follows a fixed format card", "the parser never ends", [("a.nas", FIXED)])
