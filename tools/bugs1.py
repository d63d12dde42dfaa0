import sys; sys.path.insert(0, "/verif/tools")
from mkbug import mk, DECK, F
PAD = r'''import sys
t = open(sys.argv[1]).read().replace("ENDDATA", "FORCE,2,1,,1.,1.,0.,0.\nENDDATA")
h, g = t.split("GRID,1,")
pad = 8191 - t.index("FORCE,2,1,,")
l = ""
while pad > 140:
    l += "$" + "x" * 62 + "\n"
    pad -= 64
l += "$" + "y" * (pad - 2) + "\n"
print(h + l + "GRID,1," + g, end="")
'''
mk("F01-families", "F01", [
  ("Aster/MedWriter.cpp", "		const vector<Family>& families) {\n	for (const auto& family : families) {", "		const vector<Family>& families) {\n	med_err result = 0;\n	for (const auto& family : families) {"),
  ("Aster/MedWriter.cpp", """		if (MEDfamilyCr(fid, meshname, family.name.c_str(), family.num, ngroups, groupname) < 0) {
			throw logic_error("ERROR : creating family ...");
		}
		delete[] (groupname);
	}
""", """		result = MEDfamilyCr(fid, meshname, family.name.c_str(), family.num, ngroups, groupname);
		delete[] (groupname);
	}
	if (result < 0) {
		throw logic_error("ERROR : creating family ...");
	}
""")], '''
export VSHIMTIME=1
shim "" "$V" -o ok "$D/a.nas" NASTRAN ASTER >/dev/null 2>&1 || exit 1
n=0
while [ $n -lt 60 ]; do
  rm -rf "$T/o"
  shim "write:.med:$n:28" "$V" -o o "$D/a.nas" NASTRAN ASTER >/dev/null 2>&1
  r=$?
  [ $r = 0 ] && ! cmp -s o/a.med ok/a.med && exit 1
  n=$((n+1))
done
exit 0
''', "one failing write of the group names of a family that is not the last", "exit 0 with a .med that lacks groups", F)

BIG = "\n".join(["FORCE,2,2,,1.,1.,0.,0."])
mk("F01-assertclear", "F01", [("Systus/SystusWriter.cpp", '''            << nda.value
            << " %e %e " << nda.tolerance << " \\\\n\\\\n\\", displacement[" << dofPos << "], diff);"
            << endl;
    out.unsetf(ios::scientific);''', '''            << nda.value
            << " %e %e " << nda.tolerance << " \\\\n\\\\n\\", displacement[" << dofPos << "], diff);"
            << endl;
    out.clear();
    out.unsetf(ios::scientific);''')], '''
S=$D/../../nothing
{ cat "$D/a.nas"; } > a.nas
cat > a.csv <<X
RESULTAT,NUME_ORDRE,INST,NOEUD,DX,DY,DZ
RESU1,1,0.0,N2,1.0,0.,0.
X
"$V" -o ok -t a.csv a.nas NASTRAN SYSTUS >/dev/null 2>&1 || exit 1
grep -q DISPLACEMENT ok/a_SC1.DAT || exit 1
n=0
while [ $n -lt 60 ]; do
  rm -rf "$T/o"
  shim "write:a_SC1.DAT:$n:5" "$V" -o o -t a.csv a.nas NASTRAN SYSTUS >/dev/null 2>&1
  r=$?
  [ $r = 0 ] && ! cmp -s ok/a_SC1.DAT o/a_SC1.DAT && exit 1
  n=$((n+1))
done
exit 0
''', "a transient write error before a displacement assertion is written", "exit 0 with lines missing from the SYSTUS command file", F)

mk("F02-includestat", "F02", [("Nastran/NastranParser.cpp", "    if (fs::exists(includePath)) {\n        ifstream istream(includePathStr);", "    boost::system::error_code ec;\n    if (fs::exists(includePath, ec)) {\n        ifstream istream(includePathStr);")], '''
mkdir d; printf 'GRID,3,,1.,1.,0.\\n' > d/b.inc
sed "s:^CROD:INCLUDE 'd/b.inc'\\nCROD:" "$D/a.nas" > a.nas
"$V" -o ok a.nas NASTRAN NASTRAN >/dev/null 2>&1 || exit 1
cat > s.c <<X
#define _GNU_SOURCE
#include <errno.h>
#include <string.h>
#include <dlfcn.h>
struct stat;
int stat(const char*p,struct stat*s){static int(*r)(const char*,struct stat*);if(!r)r=dlsym(RTLD_NEXT,"stat");if(strstr(p,"b.inc")){errno=5;return -1;}return r(p,s);}
int statx(int d,const char*p,int f,unsigned m,void*b){static int(*r)(int,const char*,int,unsigned,void*);if(!r)r=dlsym(RTLD_NEXT,"statx");if(p&&strstr(p,"b.inc")){errno=5;return -1;}return r(d,p,f,m,b);}
X
gcc -shared -fPIC -w -o s.so s.c -ldl || exit 99
LD_PRELOAD=$T/s.so "$V" -o o a.nas NASTRAN NASTRAN >/dev/null 2>&1
r=$?
[ $r != 0 ]
''', "an include file whose lookup fails with an error other than 'no such file'", "exit 0 without the content of the include file", F)

mk("F02-peekclear", "F02", [("Nastran/NastranTokenizer.cpp", '''	char c = static_cast<char>(this->instrream.peek());
    string line2;''', '''	char c = static_cast<char>(this->instrream.peek());
	if (!this->instrream) {
		this->instrream.clear(ios::eofbit); // no continuation after the last line
	}
    string line2;''')], '''
# the second buffer of the file starts right behind the first, free format FORCE
python3 "$D/pad.py" "$D/a.nas" > a.nas
"$V" -o ok a.nas NASTRAN NASTRAN >/dev/null 2>&1 || exit 1
shim "read:a.nas:1:5" "$V" -o o a.nas NASTRAN NASTRAN >/dev/null 2>&1
r=$?
[ $r = 0 ] && ! cmp -s ok/a_vg.nas o/a_vg.nas && exit 1
exit 0
''', "a read error exactly where the tokenizer looks ahead for a continuation line", "exit 0 with the study cut at that line", F + [("pad.py", PAD)])

mk("F03-family", "F03", [("Aster/MedWriter.cpp", "		char* groupname = new char[ngroups * MED_LNAME_SIZE + 1]();", "		char* groupname = static_cast<char*>(calloc(ngroups * MED_LNAME_SIZE + 1, 1));\n		if (groupname == nullptr) {\n			continue;\n		}"),
   ("Aster/MedWriter.cpp", "		delete[] (groupname);", "		free(groupname);")], '''
"$V" -o ok "$D/a.nas" NASTRAN ASTER >/dev/null 2>&1 || exit 1
n=0
while [ $n -lt 6 ]; do
  for s in 81 161; do
    rm -rf "$T/o"
    shim "calloc:=$s=:$n:12" "$V" -o o "$D/a.nas" NASTRAN ASTER >/dev/null 2>&1
    r=$?
    [ $r = 0 ] && [ "$(stat -c %s o/a.med)" != "$(stat -c %s ok/a.med)" ] && exit 1
  done
  n=$((n+1))
done
exit 0
''', "one failing allocation of a group name buffer", "exit 0 with families missing from the .med", F)

mk("D01-staleNames", "D01", [("Aster/MedWriter.cpp", '''		char* groupname = new char[ngroups * MED_LNAME_SIZE + 1]();
		for (unsigned int i = 0; i < ngroups; i++) {
			strncpy(groupname + (i * MED_LNAME_SIZE), family.groups[i]->getName().c_str(),
			MED_LNAME_SIZE);
		}
''', '''		char* groupname = new char[ngroups * MED_LNAME_SIZE + 1];
		for (unsigned int i = 0; i < ngroups; i++) {
			const string& name = family.groups[i]->getName();
			memcpy(groupname + (i * MED_LNAME_SIZE), name.c_str(), min<size_t>(name.size() + 1, MED_LNAME_SIZE));
		}
''')], '''
export VSHIMTIME=1
mkdir a b
cd "$T/a"; MALLOC_PERTURB_=17 shim "" "$V" -o o "$D/a.nas" NASTRAN ASTER >/dev/null 2>&1 || exit 1
cd "$T/b"; MALLOC_PERTURB_=99 shim "" "$V" -o o "$D/a.nas" NASTRAN ASTER >/dev/null 2>&1 || exit 1
cd "$T"
cmp -s a/o/a.med b/o/a.med
''', "stale heap contents behind short group names", ".med contents depend on the memory of the process", F)

mk("C01-export", "C01", [("Aster/AsterWriter.cpp", '''	exp_file_ofs.open(exp_path.c_str(), ios::trunc | ios::out);
	if (!exp_file_ofs.is_open()) {''', '''	// written over in place: links to it and its permissions stay
	exp_file_ofs.open(exp_path.c_str(), fs::exists(exp_path) ? ios::in | ios::out : ios::trunc | ios::out);
	if (!exp_file_ofs.is_open()) {''')], '''
"$V" -o ok "$D/a.nas" NASTRAN ASTER >/dev/null 2>&1 || exit 1
mkdir o; { cat ok/a.export; echo "F libr old.bin D 7"; } > o/a.export
"$V" -o o "$D/a.nas" NASTRAN ASTER >/dev/null 2>&1 || exit 1
sed 's:/o/:/ok/:g' o/a.export | cmp -s - ok/a.export
''', "an older, longer .export in the output directory", "the tail of the old .export survives", F)
mk("C02-core", "C02", [("Commandline/vegamain.cpp", "        if (WIFEXITED(status)) {", "        if (!WCOREDUMP(status) && !(WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL)) {")], '''
shim "write:a.comm:0:-9" "$V" -o o "$D/a.nas" NASTRAN ASTER >/dev/null 2>&1
[ $? = 8 ] || exit 1
# terminated by its user
cat > t.c <<X
#define _GNU_SOURCE
#include <signal.h>
#include <dlfcn.h>
#include <string.h>
#include <unistd.h>
#include <stdio.h>
FILE*fopen(const char*p,const char*m){static FILE*(*r)(const char*,const char*);if(!r)r=dlsym(RTLD_NEXT,"fopen");if(strstr(p,"a.comm"))kill(getpid(),SIGTERM);return r(p,m);}
FILE*fopen64(const char*p,const char*m){static FILE*(*r)(const char*,const char*);if(!r)r=dlsym(RTLD_NEXT,"fopen64");if(strstr(p,"a.comm"))kill(getpid(),SIGTERM);return r(p,m);}
X
gcc -shared -fPIC -w -o t.so t.c -ldl || exit 99
LD_PRELOAD=$T/t.so "$V" -o o "$D/a.nas" NASTRAN ASTER >/dev/null 2>&1
[ $? = 8 ]
''', "the child is ended by a signal other than SIGKILL that dumps no core", "exit 0 although the child was terminated", F)
