From 6c460c9a7635b4a7615e9ce5c24b72874d6fc074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:05 +0000
Subject: [PATCH 01/23] fix: NastranWriter writes the RBE3 reference node from
 its position, not from its id

---
 Nastran/NastranWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 0e16330..28be7ee 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -476,7 +476,7 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
             Line rbe3("RBE3");
             rbe3.add(rbe3Constraint->bestId());
             rbe3.add();
-            const int masterPosition = model.mesh.findNodeId(rbe3Constraint->getMaster());
+            const pos_t masterPosition = rbe3Constraint->getMaster();
             rbe3.add(model.mesh.findNodeId(masterPosition));
             rbe3.add(rbe3Constraint->getDOFSForNode(masterPosition));
             for (const auto slavePosition : rbe3Constraint->getSlaves()) {
-- 
2.43.0


From 1b10fd9177acde109d3d3ece96f3f3f08f7a9335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:05 +0000
Subject: [PATCH 02/23] fix: NastranWriter writes the PROD card instead of the
 address of the property object

---
 Nastran/NastranWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 28be7ee..f5cfb9c 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -795,7 +795,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 		prod.add(truss->mainMaterial()->bestId());
 		prod.add(truss->getAreaCrossSection());
 		prod.add(truss->getTorsionalConstant());
-		out << truss;
+		out << prod;
 		truss->markAsWritten();
 	}
 	for (const auto& beam : model.getBeams()) {
-- 
2.43.0


From 94fbdb9efe8095fe41dd6fa1d1ed352ad94fae5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:36 +0000
Subject: [PATCH 03/23] fix: report an input or include file that cannot be
 opened or read instead of converting what was read

---
 Nastran/NastranParser.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index fa2ccab..a976bbb 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -590,6 +590,9 @@ unique_ptr<Model> NastranParser::parse(const ConfigurationParameters& configurat
     map<string, string> executive_section_context;
     const string inputFilePathStr = inputFilePath.string();
     ifstream istream(inputFilePathStr);
+    if (!istream.is_open()) {
+        throw ios::failure("Can't open file " + inputFilePathStr + " for reading.");
+    }
     NastranTokenizer tok {istream, logLevel, inputFilePath.string(), this->translationMode};
 
     if (model->configuration.logLevel >= LogLevel::DEBUG) {
@@ -602,6 +605,9 @@ unique_ptr<Model> NastranParser::parse(const ConfigurationParameters& configurat
     }
     tok.bulkSection();
     parseBULKSection(tok, *model);
+    if (istream.bad()) {
+        throw ios::failure("Error while reading file " + inputFilePathStr + ".");
+    }
     istream.close();
 
     if (model->configuration.logLevel >= LogLevel::DEBUG) {
@@ -1822,10 +1828,16 @@ void NastranParser::parseInclude(NastranTokenizer& tok, Model& model) {
     const string includePathStr = includePath.string();
     if (fs::exists(includePath)) {
         ifstream istream(includePathStr);
+        if (!istream.is_open()) {
+            throw ios::failure("Can't open include file " + includePathStr + " for reading.");
+        }
         NastranTokenizer tok2 {istream, this->logLevel, includePathStr, this->translationMode};
         tok2.bulkSection();
         tok2.nextLine();
         parseBULKSection(tok2, model);
+        if (istream.bad()) {
+            throw ios::failure("Error while reading include file " + includePathStr + ".");
+        }
         istream.close();
     } else {
         handleParsingError("Missing include file "+includePathStr, tok, model);
-- 
2.43.0


From ff6bbca43823e2c86f559dfce7ead4543c89a4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:36 +0000
Subject: [PATCH 04/23] fix: report a test result file that cannot be opened or
 read instead of dropping its assertions

---
 ResultReaders/CSVResultReader.cpp | 6 ++++++
 ResultReaders/F06Parser.cpp       | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/ResultReaders/CSVResultReader.cpp b/ResultReaders/CSVResultReader.cpp
index 6e0f22f..ad8d70d 100644
--- a/ResultReaders/CSVResultReader.cpp
+++ b/ResultReaders/CSVResultReader.cpp
@@ -165,6 +165,9 @@ void CSVResultReader::add_assertions(const ConfigurationParameters& configuratio
 
 	if (!configuration.resultFile.empty()) {
 		ifstream in(configuration.resultFile.string());
+		if (!in.is_open() and boost::filesystem::exists(configuration.resultFile)) {
+			throw ios::failure("Can't open result file " + configuration.resultFile.string() + " for reading.");
+		}
 		in.unsetf(ios::skipws);
 		spirit::istream_iterator begin(in);
 		const spirit::istream_iterator end;
@@ -174,6 +177,9 @@ void CSVResultReader::add_assertions(const ConfigurationParameters& configuratio
 		CsvGrammar grammar(model, configuration);
 
 		bool ok = qi::phrase_parse(begin1, end1, grammar, qi::blank);
+		if (in.bad()) {
+			throw ios::failure("Error while reading result file " + configuration.resultFile.string() + ".");
+		}
 
 		if (ok) {
 			cout << "Parse OK\n";
diff --git a/ResultReaders/F06Parser.cpp b/ResultReaders/F06Parser.cpp
index 54c5288..21f142c 100644
--- a/ResultReaders/F06Parser.cpp
+++ b/ResultReaders/F06Parser.cpp
@@ -517,6 +517,9 @@ void F06Parser::add_assertions(const ConfigurationParameters& configuration,
 		Model& model) {
 	if (!configuration.resultFile.empty()) {
 		ifstream istream(configuration.resultFile.string());
+		if (!istream.is_open() and boost::filesystem::exists(configuration.resultFile)) {
+			throw ios::failure("Can't open result file " + configuration.resultFile.string() + " for reading.");
+		}
 		string currentLine;
 		int currentSubCase = NO_SUBCASE;
 		double loadStep = -1;
@@ -570,6 +573,9 @@ void F06Parser::add_assertions(const ConfigurationParameters& configuration,
 						configuration, istream);
 			}
 		}
+		if (istream.bad()) {
+			throw ios::failure("Error while reading result file " + configuration.resultFile.string() + ".");
+		}
 		istream.close();
 	}
 }
-- 
2.43.0


From 46760724ae70fd719961e2317be3f482005b4f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:36 +0000
Subject: [PATCH 05/23] fix: writers report an output file that could not be
 written completely

---
 Abstract/SolverInterfaces.cpp |  7 +++++++
 Abstract/SolverInterfaces.h   |  7 +++++++
 Aster/AsterWriter.cpp         |  5 +++--
 Nastran/NastranWriter.cpp     |  2 +-
 Systus/SystusWriter.cpp       | 12 ++++++------
 5 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/Abstract/SolverInterfaces.cpp b/Abstract/SolverInterfaces.cpp
index dcf7786..3e15469 100644
--- a/Abstract/SolverInterfaces.cpp
+++ b/Abstract/SolverInterfaces.cpp
@@ -206,6 +206,13 @@ void Writer::handleWritingWarning(const string& message, const string& keyword,
     cerr << WritingMessageWarning(message, keyword, file) << endl;
 }
 
+void Writer::closeOutputFile(ofstream& out, const string& fileName) const {
+    out.close();
+    if (!out) {
+        throw WritingException("File could not be written completely.", "", fileName);
+    }
+}
+
 
 
 ostream& operator<<(ostream& out, Writer& f) {
diff --git a/Abstract/SolverInterfaces.h b/Abstract/SolverInterfaces.h
index 271fa1c..5a050bd 100644
--- a/Abstract/SolverInterfaces.h
+++ b/Abstract/SolverInterfaces.h
@@ -15,6 +15,7 @@
 #include <iostream>
 #include <vector>
 #include <istream>
+#include <fstream>
 #include "ConfigurationParameters.h"
 #include "Utility.h"
 #include "Object.h"
@@ -164,6 +165,12 @@ public:
      */
 	//TODO: Decide of a politic for warning.
 	void handleWritingWarning(const std::string& message, const std::string& keyword="", const std::string& file="") const;
+
+    /**
+     * Close a file just written. Throw a WritingException if anything written to it was lost
+     * (disk full, input/output error, ...).
+     */
+	void closeOutputFile(std::ofstream& out, const std::string& fileName) const;
 };
 
 class Runner {
diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index ee03f05..1a84e72 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -64,6 +64,7 @@ string AsterWriter::writeModel(Model& model,
             ofstream graphviz_file_ofs;
             graphviz_file_ofs.open(graphviz_path.c_str(), ios::out | ios::trunc);
             analysis->createGraph(graphviz_file_ofs);
+            closeOutputFile(graphviz_file_ofs, graphviz_path);
             if (boost::filesystem::exists( DOXYGEN_DOT_EXECUTABLE )) {
                 string dot_cmd = string(DOXYGEN_DOT_EXECUTABLE) + " -Tpng " + graphviz_path + " -o " + png_path;
                 system(dot_cmd.c_str());
@@ -84,7 +85,7 @@ string AsterWriter::writeModel(Model& model,
 		throw ios::failure(message);
 	}
 	this->writeExport();
-	exp_file_ofs.close();
+	closeOutputFile(exp_file_ofs, exp_path);
 
 	comm_file_ofs.open(comm_path.c_str(), ios::out | ios::trunc);
 
@@ -93,7 +94,7 @@ string AsterWriter::writeModel(Model& model,
 		throw ios::failure(message);
 	}
 	this->writeComm();
-	comm_file_ofs.close();
+	closeOutputFile(comm_file_ofs, comm_path);
 
 	MedWriter medWriter;
 	medWriter.writeMED(model, med_path.c_str());
diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index f5cfb9c..3a81f87 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -1071,7 +1071,7 @@ string NastranWriter::writeModel(Model& model,
 
 	out << "ENDDATA" << endl;
 
-	out.close();
+	closeOutputFile(out, nasPath);
 	return nasPath;
 }
 
diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 5cb70f4..73f0e3f 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -386,7 +386,7 @@ string SystusWriter::writeModel(Model& model,
             throw ios::failure("Can't open file " + asc_path + " for writing.");
         }
         this->writeAsc(systusModel, idSubcase, asc_file_ofs);
-        asc_file_ofs.close();
+        closeOutputFile(asc_file_ofs, asc_path);
 
         /* Write some matrix files, if needed */
         this->writeMatrixFiles(systusModel, idSubcase);
@@ -401,7 +401,7 @@ string SystusWriter::writeModel(Model& model,
             throw ios::failure("Can't open file " + analyse_path + " for writing.");
         }
         this->writeDat(systusModel, configuration, idSubcase, analyse_file_ofs);
-        analyse_file_ofs.close();
+        closeOutputFile(analyse_file_ofs, analyse_path);
 
         if (configuration.systusOutputProduct=="systus"){
             dat_file_ofs << "READ " << systusModel.getName() << "_SC" << to_string(idSubcase+1) << ".DAT" << endl;
@@ -409,7 +409,7 @@ string SystusWriter::writeModel(Model& model,
     }
 
     if (configuration.systusOutputProduct=="systus"){
-        dat_file_ofs.close();
+        closeOutputFile(dat_file_ofs, dat_path);
     }
     return dat_path;
 }
@@ -3366,7 +3366,7 @@ void SystusWriter::writeMatrixFiles(const SystusModel& systusModel, const int id
             throw ios::failure("Can't open file " + matrixFile + " for writing.");
         }
         ofsMatrixFile << dampingMatrices<<endl;
-        ofsMatrixFile.close();
+        closeOutputFile(ofsMatrixFile, matrixFile);
         filebyAccessId[SystusWriter::DampingAccessId]= systusModel.getName()+"_SC" + to_string(idSubcase+1) + "_DAMGEN";
     }
 
@@ -3381,7 +3381,7 @@ void SystusWriter::writeMatrixFiles(const SystusModel& systusModel, const int id
             throw ios::failure("Can't open file " + matrixFile + " for writing.");
         }
         ofsMatrixFile << massMatrices << endl;
-        ofsMatrixFile.close();
+        closeOutputFile(ofsMatrixFile, matrixFile);
         filebyAccessId[SystusWriter::MassAccessId]= systusModel.getName()+"_SC" + to_string(idSubcase+1) + "_MASGEN";
     }
 
@@ -3396,7 +3396,7 @@ void SystusWriter::writeMatrixFiles(const SystusModel& systusModel, const int id
             throw ios::failure("Can't open file " + matrixFile + " for writing.");
         }
         ofsMatrixFile << stiffnessMatrices <<endl;
-        ofsMatrixFile.close();
+        closeOutputFile(ofsMatrixFile, matrixFile);
         filebyAccessId[SystusWriter::StiffnessAccessId]=systusModel.getName()+"_SC" + to_string(idSubcase+1) + "_STIGEN";
     }
 }
-- 
2.43.0


From 48c787efab42782e73b207b7647dfe7bf1b7e1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:29 +0000
Subject: [PATCH 06/23] fix: stop when memory is exhausted instead of writing
 truncated data

---
 Commandline/vegamain.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Commandline/vegamain.cpp b/Commandline/vegamain.cpp
index 613e728..2a0be15 100644
--- a/Commandline/vegamain.cpp
+++ b/Commandline/vegamain.cpp
@@ -15,12 +15,23 @@
 #include "build_properties.h"
 #include "VegaCommandLine.h"
 #include <clocale>
+#include <cstdio>
 #include <cstdlib>
 #include <iostream>
+#include <new>
 
 using namespace vega;
 using namespace std;
 
+/*
+ * The standard streams catch bad_alloc and go on with truncated data:
+ * when memory is exhausted the translation has to stop here.
+ */
+static void outOfMemory() {
+    fputs("Out of memory.\n", stderr);
+    _Exit(static_cast<int>(VegaCommandLine::ExitCode::GENERIC_EXCEPTION));
+}
+
 int main(int ac, const char* av[]) {
     //workaround for https://svn.boost.org/trac/boost/ticket/5928
     setlocale(LC_ALL, "C");
@@ -39,6 +50,7 @@ int main(int ac, const char* av[]) {
         }
     } else if (child_pid == 0) {
 #endif
+        set_new_handler(outOfMemory);
         VegaCommandLine vcl;
         VegaCommandLine::ExitCode exitCode = vcl.process(ac, av);
         if (exitCode != VegaCommandLine::ExitCode::OK) {
-- 
2.43.0


From 4b3112b4c1fadec673d1c0bf7d65b7b9158c21c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:29 +0000
Subject: [PATCH 07/23] fix: MedWriter reports node and cell numbers that could
 not be written

---
 Aster/MedWriter.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Aster/MedWriter.cpp b/Aster/MedWriter.cpp
index 3c1f062..3bccc7b 100644
--- a/Aster/MedWriter.cpp
+++ b/Aster/MedWriter.cpp
@@ -244,7 +244,9 @@ void MedWriter::writeMED(const Model& model, const string& medFileName) {
     for(med_int i=0; i<nnodes;i++){
         numnoe.push_back(i+1);
     }
-    MEDmeshEntityNumberWr(fid, meshname, MED_NO_DT, MED_NO_IT, MED_NODE, MED_NONE,nnodes, numnoe.data());
+    if (MEDmeshEntityNumberWr(fid, meshname, MED_NO_DT, MED_NO_IT, MED_NODE, MED_NONE,nnodes, numnoe.data()) < 0) {
+        throw logic_error("ERROR : writing node numbers ...");
+    }
     numnoe.clear();
 
 	for (const auto& kv : model.mesh.cellPositionsByType) {
@@ -296,12 +298,10 @@ void MedWriter::writeMED(const Model& model, const string& medFileName) {
         for (const auto cellPosition : cellPositions) {
             cellnums.push_back(static_cast<med_int>(cellPosition)+1);
         }
-        MEDmeshEntityNumberWr(fid, meshname, MED_NO_DT, MED_NO_IT, MED_CELL, code, numCells, cellnums.data());
-        cellnums.clear();
-
-        if (result < 0) {
-        throw logic_error("ERROR : writing cell names ...");
+        if (MEDmeshEntityNumberWr(fid, meshname, MED_NO_DT, MED_NO_IT, MED_CELL, code, numCells, cellnums.data()) < 0) {
+            throw logic_error("ERROR : writing cell numbers ...");
         }
+        cellnums.clear();
 	}
 
 	if (MEDfamilyCr(fid, meshname, MED_NO_NAME, 0, 0, MED_NO_GROUP) < 0) {
-- 
2.43.0


From 8fe3051e4368eef5fefb3d4c0044636819d8ffe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:59 +0000
Subject: [PATCH 08/23] fix: a configuration file that cannot be read
 completely is an error, not a shorter configuration

---
 Commandline/VegaCommandLine.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Commandline/VegaCommandLine.cpp b/Commandline/VegaCommandLine.cpp
index cd846de..1364c29 100644
--- a/Commandline/VegaCommandLine.cpp
+++ b/Commandline/VegaCommandLine.cpp
@@ -593,6 +593,9 @@ VegaCommandLine::ExitCode VegaCommandLine::process(int ac, const char* av[]) {
             }
         } else {
             store(parse_config_file(ifs, config_file_options), vm);
+            if (ifs.bad()) {
+                throw ios::failure("Configuration file " + config_file + " can't be read completely.");
+            }
             notify(vm);
         }
 
-- 
2.43.0


From f2b2d26fe215a04a10f5d57f7129356853795cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:47 +0000
Subject: [PATCH 09/23] fix: exit 3 when the output directory can't be created,
 accept one created concurrently

---
 Commandline/VegaCommandLine.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/Commandline/VegaCommandLine.cpp b/Commandline/VegaCommandLine.cpp
index 1364c29..b8a2bae 100644
--- a/Commandline/VegaCommandLine.cpp
+++ b/Commandline/VegaCommandLine.cpp
@@ -621,11 +621,14 @@ VegaCommandLine::ExitCode VegaCommandLine::process(int ac, const char* av[]) {
             return ExitCode::NO_INPUT_FILE;
         }
 
-        if (!fs::exists(configuration.outputPath)) {
-            bool create = fs::create_directories(configuration.outputPath);
-            if (!create) {
-                cerr << "Output Directory " + configuration.outputPath + " can't be created."
-                        << endl;
+        boost::system::error_code ec;
+        if (!fs::exists(configuration.outputPath, ec)) {
+            // someone else may create it first: what counts is that it is there afterwards
+            fs::create_directories(configuration.outputPath, ec);
+            boost::system::error_code statusError;
+            if (!fs::is_directory(configuration.outputPath, statusError)) {
+                cerr << "Output Directory " + configuration.outputPath + " can't be created: "
+                        << ec.message() << endl;
                 return ExitCode::OUTPUT_DIR_NOT_CREATED;
             }
         }
-- 
2.43.0


From d3c6fc843332b176827bf94fd7763f174604d8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:47 +0000
Subject: [PATCH 10/23] fix: vegapp reports the child's status when wait is
 interrupted, fails, or SIGCHLD was ignored

---
 Commandline/vegamain.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/Commandline/vegamain.cpp b/Commandline/vegamain.cpp
index 2a0be15..5eac927 100644
--- a/Commandline/vegamain.cpp
+++ b/Commandline/vegamain.cpp
@@ -14,7 +14,9 @@
 
 #include "build_properties.h"
 #include "VegaCommandLine.h"
+#include <cerrno>
 #include <clocale>
+#include <csignal>
 #include <cstdio>
 #include <cstdlib>
 #include <iostream>
@@ -37,11 +39,20 @@ int main(int ac, const char* av[]) {
     setlocale(LC_ALL, "C");
     putenv(strdup("LC_ALL=C" /* fix for deprecated conversion */));
 #if defined(unix)
+    // an inherited SIG_IGN would discard the status of the child
+    signal(SIGCHLD, SIG_DFL);
     pid_t child_pid = fork();
     if (child_pid > 0) {
         //parent process
         int status = 0;
-        wait(&status);
+        pid_t waited;
+        do {
+            waited = waitpid(child_pid, &status, 0);
+        } while (waited < 0 && errno == EINTR);
+        if (waited < 0) {
+            cerr << "The status of the child can't be obtained." << endl;
+            return static_cast<int>(VegaCommandLine::ExitCode::CHILD_CRASHED);
+        }
         if (WIFEXITED(status)) {
             return WEXITSTATUS(status);
         } else {
-- 
2.43.0


From 421023ab8201716ed620d6f7b2550f7507f1e286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:29 +0000
Subject: [PATCH 11/23] fix: MedWriter closes the file when writing it fails

---
 Aster/MedWriter.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Aster/MedWriter.cpp b/Aster/MedWriter.cpp
index 3bccc7b..990de2e 100644
--- a/Aster/MedWriter.cpp
+++ b/Aster/MedWriter.cpp
@@ -204,6 +204,15 @@ void MedWriter::writeMED(const Model& model, const string& medFileName) {
 	if (fid < 0) {
 		throw logic_error("ERROR : MED file creation ... fid=" + to_string(fid));
 	}
+	// an error while writing must not leave the file open
+	struct OpenMedFile {
+		med_idt fid;
+		~OpenMedFile() {
+			if (fid >= 0) {
+				MEDfileClose(fid);
+			}
+		}
+	} openMedFile{fid};
 
 	if (MEDmeshCr(fid, meshname, spacedim, meshdim, MED_UNSTRUCTURED_MESH, model.mesh.getName().c_str(), "",
 			MED_SORT_DTIT, MED_CARTESIAN, axisname, unitname) < 0) {
@@ -350,6 +359,7 @@ void MedWriter::writeMED(const Model& model, const string& medFileName) {
 	 }
 	 */
 	/* close MED file */
+	openMedFile.fid = -1;
 	if (MEDfileClose(fid) < 0) {
 		throw logic_error("ERROR : closing med file ...");
 	}
-- 
2.43.0


From 61148ed9566ca968dc2f83d18d9b27aabc549904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:58 +0000
Subject: [PATCH 12/23] fix: AsterWriter never leaves a partial copy of the
 input or test file under its final name

---
 Aster/AsterWriter.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 1a84e72..69e1316 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -28,6 +28,23 @@ using namespace std;
 namespace vega {
 namespace aster {
 
+/*
+ * A copy that can't be completed must not be left behind under its final name,
+ * where it would be taken for the file itself by the next translation.
+ */
+static void copyWhole(const fs::path& from, const fs::path& to) {
+    fs::path partial(to);
+    partial += fs::unique_path(".%%%%%%%%.part");
+    try {
+        fs::copy_file(from, partial);
+        fs::rename(partial, to);
+    } catch (const fs::filesystem_error&) {
+        boost::system::error_code ec;
+        fs::remove(partial, ec);
+        throw;
+    }
+}
+
 string AsterWriter::toString() const {
 	return "AsterWriter";
 }
@@ -48,13 +65,13 @@ string AsterWriter::writeModel(Model& model,
     fs::path inputFile(asterModel->configuration.inputFile);
     const auto& inputFileCopy = fs::absolute(path) / inputFile.filename();
 	if (fs::exists(inputFile) and not fs::exists(inputFileCopy)) {
-		fs::copy_file(inputFile, inputFileCopy); // LD 06/05/2020 overwrite can cause issues if output directory is default (output=current) or set to ".", input file is overwritten or it causes an error because it is already open
+		copyWhole(inputFile, inputFileCopy); // LD 06/05/2020 overwrite can cause issues if output directory is default (output=current) or set to ".", input file is overwritten or it causes an error because it is already open
 	}
 
     fs::path testFile = asterModel->configuration.resultFile;
     const auto& testFileCopy = fs::absolute(path) / testFile.filename();
 	if (fs::exists(testFile) and not fs::exists(testFileCopy)) {
-		fs::copy_file(testFile, testFileCopy); // LD 06/05/2020 overwrite can cause issues if output directory is default (output=current) or set to ".", input file is overwritten or it causes an error because it is already open
+		copyWhole(testFile, testFileCopy); // LD 06/05/2020 overwrite can cause issues if output directory is default (output=current) or set to ".", input file is overwritten or it causes an error because it is already open
 	}
 
 	if (configuration.createGraph) {
-- 
2.43.0


From a6697b366515420443f3268df623d6717e4508fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:45 +0000
Subject: [PATCH 13/23] fix: an error in the options gives the documented exit
 status 4 instead of crashing the child

---
 Commandline/VegaCommandLine.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Commandline/VegaCommandLine.cpp b/Commandline/VegaCommandLine.cpp
index b8a2bae..634e232 100644
--- a/Commandline/VegaCommandLine.cpp
+++ b/Commandline/VegaCommandLine.cpp
@@ -464,7 +464,8 @@ VegaCommandLine::ExitCode VegaCommandLine::process(int ac, const char* av[]) {
 #if Backtrace_FOUND
     signal(SIGSEGV, handler);
 #endif
-    LogLevel logLevel = LogLevel::TRACE;
+    // until the options are read, errors in them are reported, not rethrown for a debugger
+    LogLevel logLevel = LogLevel::INFO;
     try {
         string config_file;
 
@@ -649,6 +650,12 @@ VegaCommandLine::ExitCode VegaCommandLine::process(int ac, const char* av[]) {
         } else
             cerr  << endl << "Invalid argument: " << e.what()  << endl;
         return ExitCode::INVALID_COMMAND_LINE;
+    } catch (po::error &e) {   // unknown option, missing or wrong value.
+        if (logLevel >= LogLevel::DEBUG) {
+            throw;
+        } else
+            cerr  << endl << "Invalid argument: " << e.what()  << endl;
+        return ExitCode::INVALID_COMMAND_LINE;
     } catch (ParsingException & e) {   // A parsing error occurred.
         if (logLevel >= LogLevel::DEBUG) {
             throw;
-- 
2.43.0


From c896b5f73dbea3772d72748dc99b3602af77f0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:07 +0000
Subject: [PATCH 14/23] fix: a converter object used again starts with fresh
 parsers, writers and runners

---
 Commandline/VegaCommandLine.cpp | 6 +++++-
 Commandline/VegaCommandLine.h   | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/Commandline/VegaCommandLine.cpp b/Commandline/VegaCommandLine.cpp
index 634e232..7a328d7 100644
--- a/Commandline/VegaCommandLine.cpp
+++ b/Commandline/VegaCommandLine.cpp
@@ -55,7 +55,9 @@ unordered_map<VegaCommandLine::ExitCode, string, EnumClassHash> VegaCommandLine:
         {ExitCode::SOLVER_TEST_FAIL, "internal solver test fail (TEST_RESU)."}
 };
 
-VegaCommandLine::VegaCommandLine() {
+VegaCommandLine::VegaCommandLine() = default;
+
+void VegaCommandLine::createTools() {
     parserBySolverName[SolverName::NASTRAN] = make_unique<nastran::NastranParser>();
     parserBySolverName[SolverName::OPTISTRUCT] = make_unique<optistruct::OptistructParser>();
 #if ENABLE_ASTER
@@ -464,6 +466,8 @@ VegaCommandLine::ExitCode VegaCommandLine::process(int ac, const char* av[]) {
 #if Backtrace_FOUND
     signal(SIGSEGV, handler);
 #endif
+    // parsers and writers keep data of the study they have translated
+    createTools();
     // until the options are read, errors in them are reported, not rethrown for a debugger
     LogLevel logLevel = LogLevel::INFO;
     try {
diff --git a/Commandline/VegaCommandLine.h b/Commandline/VegaCommandLine.h
index 61bf5a1..bdcdee3 100644
--- a/Commandline/VegaCommandLine.h
+++ b/Commandline/VegaCommandLine.h
@@ -61,6 +61,7 @@ public:
 private:
     static std::unordered_map<ExitCode, std::string, EnumClassHash> failureReason_by_ExitCode;
 
+    void createTools();
     ConfigurationParameters readCommandLineParameters(const po::variables_map& vm);
     ExitCode convertStudy(const ConfigurationParameters& configuration, std::string& modelFileOut,
             const Solver& inputSolver);
-- 
2.43.0


From 5333b9d65d9f4494bb698dd5010678780b780530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:49 +0000
Subject: [PATCH 15/23] fix: a value that can't be read in strict mode exits
 with the parsing error status, not 'no input file'

---
 Abstract/SolverInterfaces.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/SolverInterfaces.cpp b/Abstract/SolverInterfaces.cpp
index 3e15469..bd85849 100644
--- a/Abstract/SolverInterfaces.cpp
+++ b/Abstract/SolverInterfaces.cpp
@@ -140,7 +140,7 @@ void Tokenizer::handleParsingError(const string& message) {
         //throw ParsingException(message, fileName, lineNumber, currentKeyword);
         cerr << ParsingException(message, fileName, lineNumber, currentKeyword);
         vega::stacktrace();
-        exit(2);
+        exit(6); // VegaCommandLine::ExitCode::PARSING_EXCEPTION
     case ConfigurationParameters::TranslationMode::MESH_AT_LEAST:
         //model.onlyMesh = true;
         cerr << ParsingMessageException(message, fileName, lineNumber, currentKeyword) << endl;
-- 
2.43.0


From 92013dff8fa3eee46fc55432a65d731d8130ca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:33 +0000
Subject: [PATCH 16/23] fix: a SET whose continuation lies behind the end of
 the file no longer hangs the parser

---
 Nastran/NastranParser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index a976bbb..646f9b2 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -275,8 +275,11 @@ string NastranParser::parseSubcom(NastranTokenizer& tok, Model& model,
 
 void NastranParser::addSet(NastranTokenizer& tok, Model& model) {
     string line = trim_copy(tok.currentRawDataLine());
-    while (line.back() == ',') {
+    while (not line.empty() and line.back() == ',') {
         tok.nextLine();
+        if (tok.nextSymbolType == NastranTokenizer::SymbolType::SYMBOL_EOF) {
+            handleParsingError("SET continues behind the end of the file", tok, model);
+        }
         line += trim_copy(tok.currentRawDataLine());
     }
     vector<string> parts;
-- 
2.43.0


From 3598aefa5c937b127205fc2010c00baf5a9e9a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:35 +0000
Subject: [PATCH 17/23] fix: a read error in a csv result file no longer hangs
 the reader

---
 ResultReaders/CSVResultReader.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ResultReaders/CSVResultReader.cpp b/ResultReaders/CSVResultReader.cpp
index ad8d70d..39ba343 100644
--- a/ResultReaders/CSVResultReader.cpp
+++ b/ResultReaders/CSVResultReader.cpp
@@ -168,6 +168,8 @@ void CSVResultReader::add_assertions(const ConfigurationParameters& configuratio
 		if (!in.is_open() and boost::filesystem::exists(configuration.resultFile)) {
 			throw ios::failure("Can't open result file " + configuration.resultFile.string() + " for reading.");
 		}
+		// the iterators below only know the end of the file: they would never stop behind a read error
+		in.exceptions(ios::badbit);
 		in.unsetf(ios::skipws);
 		spirit::istream_iterator begin(in);
 		const spirit::istream_iterator end;
@@ -177,9 +179,6 @@ void CSVResultReader::add_assertions(const ConfigurationParameters& configuratio
 		CsvGrammar grammar(model, configuration);
 
 		bool ok = qi::phrase_parse(begin1, end1, grammar, qi::blank);
-		if (in.bad()) {
-			throw ios::failure("Error while reading result file " + configuration.resultFile.string() + ".");
-		}
 
 		if (ok) {
 			cout << "Parse OK\n";
-- 
2.43.0


From 5cbfd12b187bd1a326d9aa4725d4380320a06476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:02 +0000
Subject: [PATCH 18/23] fix: names of studies and output directories with
 spaces or shell characters reach the solver unharmed

---
 Abstract/SolverInterfaces.cpp | 16 ++++++++++++++++
 Abstract/SolverInterfaces.h   |  4 ++++
 Aster/AsterRunner.cpp         |  5 +++--
 Nastran/NastranRunner.cpp     |  6 +++---
 Systus/SystusRunner.cpp       | 12 ++++++------
 5 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/Abstract/SolverInterfaces.cpp b/Abstract/SolverInterfaces.cpp
index bd85849..d954a75 100644
--- a/Abstract/SolverInterfaces.cpp
+++ b/Abstract/SolverInterfaces.cpp
@@ -231,6 +231,22 @@ string Runner::stripExtension(const string& currentModel) const {
     return basePath;
 }
 
+string Runner::shellQuoted(const string& word) const {
+#ifdef _WIN32
+    return "\"" + word + "\"";
+#else
+    string result = "'";
+    for (const char c : word) {
+        if (c == '\'') {
+            result += "'\\''";
+        } else {
+            result += c;
+        }
+    }
+    return result + "'";
+#endif
+}
+
 void Runner::deletePreviousResultFiles(string currentModel, const vector<string> extensions) {
     string basePath = stripExtension(currentModel);
     for (const string extension : extensions) {
diff --git a/Abstract/SolverInterfaces.h b/Abstract/SolverInterfaces.h
index 5a050bd..0655091 100644
--- a/Abstract/SolverInterfaces.h
+++ b/Abstract/SolverInterfaces.h
@@ -196,6 +196,10 @@ protected:
 	void deletePreviousResultFiles(std::string currentModel,
 			const std::vector<std::string> extensions);
 	std::string stripExtension(const std::string& currentModel) const;
+	/**
+	 * Quote a string for the shell that starts the solver.
+	 */
+	std::string shellQuoted(const std::string& word) const;
 	ExitCode convertExecResult(const int exitCode) const;
 };
 
diff --git a/Aster/AsterRunner.cpp b/Aster/AsterRunner.cpp
index c9e9ebe..e7518a3 100644
--- a/Aster/AsterRunner.cpp
+++ b/Aster/AsterRunner.cpp
@@ -45,10 +45,11 @@ Runner::ExitCode AsterRunner::execSolver(const ConfigurationParameters &configur
     string command = configuration.solverCommand.empty() ? "as_run" : configuration.solverCommand;
     fs::path modelFilePath(modelFile);
     string fname = modelFilePath.stem().string();
-    command = command + " " + modelFile + " > " + fname + ".stdout 2> " + fname + ".stderr";
+    command = command + " " + shellQuoted(modelFile) + " > " + shellQuoted(fname + ".stdout") + " 2> "
+            + shellQuoted(fname + ".stderr");
 
     if (configuration.outputPath != ".") {
-        command = "cd " + configuration.outputPath + " && " + command;
+        command = "cd " + shellQuoted(configuration.outputPath) + " && " + command;
     }
     vector<string> fileList = { ".mess", ".resu", ".rmed", ".stdout", ".stderr" };
     deletePreviousResultFiles(modelFile, fileList);
diff --git a/Nastran/NastranRunner.cpp b/Nastran/NastranRunner.cpp
index 2a662b8..5d43862 100644
--- a/Nastran/NastranRunner.cpp
+++ b/Nastran/NastranRunner.cpp
@@ -41,14 +41,14 @@ Runner::ExitCode NastranRunner::execSolver(const ConfigurationParameters &config
         string modelFile) {
     fs::path modelFilePath(modelFile);
     string fname = modelFilePath.stem().string();
-    string command = "nastran " + modelFilePath.filename().string() + " > " + fname + ".stdout 2> " + fname
-            + ".stderr";
+    string command = "nastran " + shellQuoted(modelFilePath.filename().string()) + " > " + shellQuoted(fname + ".stdout")
+            + " 2> " + shellQuoted(fname + ".stderr");
     fs::path outputFsPath(configuration.outputPath);
     cout << configuration.outputPath << endl;
     if (!fs::is_directory(outputFsPath))
         return Runner::ExitCode::SOLVER_NOT_FOUND;
     if (configuration.outputPath != ".")
-        command = "cd " + configuration.outputPath + " && " + command;
+        command = "cd " + shellQuoted(configuration.outputPath) + " && " + command;
 
     vector<string> fileList = { ".DBALL", ".f04", ".f06", ".IFPDAT", ".log", ".MASTER", ".stdout",
             ".stderr" };
diff --git a/Systus/SystusRunner.cpp b/Systus/SystusRunner.cpp
index 9950680..e0770c4 100644
--- a/Systus/SystusRunner.cpp
+++ b/Systus/SystusRunner.cpp
@@ -64,10 +64,10 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
 
     ExitCode exitCode;
     if (configuration.systusOutputProduct=="systus") {
-        string command = "systus -batch -exec " + modelFile + " > " + fname + ".stdout 2> " + fname
-                + ".stderr";
+        string command = "systus -batch -exec " + shellQuoted(modelFile) + " > " + shellQuoted(fname + ".stdout") + " 2> "
+                + shellQuoted(fname + ".stderr");
         if (configuration.outputPath != ".")
-            command = "cd " + configuration.outputPath + " && " + command;
+            command = "cd " + shellQuoted(configuration.outputPath) + " && " + command;
         //run command
         int i = system(command.c_str());
         if (i != 0) {
@@ -88,10 +88,10 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
             cout << "Found DAT file:" << datFilename << endl;
             //check if it contains nook
             string datFileStr = (outputFsPath / fs::path(datFilename)).string();
-            string command = "systus -batch -exec " + datFilename + " > " + fname + ".stdout 2> " + fname
-                    + ".stderr";
+            string command = "systus -batch -exec " + shellQuoted(datFilename) + " > " + shellQuoted(fname + ".stdout") + " 2> "
+                    + shellQuoted(fname + ".stderr");
             if (configuration.outputPath != ".")
-                command = "cd " + configuration.outputPath + " && " + command;
+                command = "cd " + shellQuoted(configuration.outputPath) + " && " + command;
             //run command
             int i = system(command.c_str());
             if (i != 0) {
-- 
2.43.0


From 9b00182313c324a9eb4bc28ac1651fdf6532a92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:02 +0000
Subject: [PATCH 19/23] fix: a solver killed by a signal and exit status 4 of
 Code_Aster are recognised in the wait status

---
 Abstract/SolverInterfaces.cpp | 12 +++++++-----
 Aster/AsterRunner.cpp         |  2 +-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/Abstract/SolverInterfaces.cpp b/Abstract/SolverInterfaces.cpp
index d954a75..f25b72e 100644
--- a/Abstract/SolverInterfaces.cpp
+++ b/Abstract/SolverInterfaces.cpp
@@ -265,16 +265,18 @@ Runner::ExitCode Runner::convertExecResult(const int exitCode) const {
         return ExitCode::OK;
     }
     ExitCode result = ExitCode::SOLVER_EXIT_NOT_ZERO;
-#ifdef __GNUC__
+#if defined(__GNUC__) && !defined(_WIN32)
     //bash exit codes http://tldp.org/LDP/abs/html/exitcodes.html
-    //int lowByte = 0x00FF & exitCode;
+    int lowByte = 0x007F & exitCode;
     int highByte = (exitCode & 0xFF00) >> 8;
-    if (highByte == 127) {
+    if (exitCode == -1) {
         result = ExitCode::SOLVER_NOT_FOUND;
-    } else if (highByte > 128 && highByte <= 165) {
+    } else if (lowByte != 0) { // the shell was replaced by the solver, and a signal killed it
         result = ExitCode::SOLVER_KILLED;
-    } else if (exitCode == -1) {
+    } else if (highByte == 127) {
         result = ExitCode::SOLVER_NOT_FOUND;
+    } else if (highByte > 128 && highByte <= 165) {
+        result = ExitCode::SOLVER_KILLED;
     }
 #else
 
diff --git a/Aster/AsterRunner.cpp b/Aster/AsterRunner.cpp
index e7518a3..7a075aa 100644
--- a/Aster/AsterRunner.cpp
+++ b/Aster/AsterRunner.cpp
@@ -111,7 +111,7 @@ Runner::ExitCode AsterRunner::execSolver(const ConfigurationParameters &configur
                 cout << "Tests OK." << endl;
             }
         }
-    } else if (i == 4) { //handle the case of code_aster exit code 4
+    } else if (i == (4 << 8)) { //handle the case of code_aster exit code 4
         exitCode = ExitCode::TRANSLATION_SYNTAX_ERROR;
     }
     return exitCode;
-- 
2.43.0


From 00b38b61cc6870a250f2316c3090c1f7d69662d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:02 +0000
Subject: [PATCH 20/23] fix: an error in the listing of any SYSTUS computation
 is reported, not only of the last one

---
 Systus/SystusRunner.cpp | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/Systus/SystusRunner.cpp b/Systus/SystusRunner.cpp
index e0770c4..173e35d 100644
--- a/Systus/SystusRunner.cpp
+++ b/Systus/SystusRunner.cpp
@@ -34,6 +34,26 @@ namespace systus {
 namespace fs = boost::filesystem;
 using namespace std;
 
+namespace {
+
+/* Look for errors reported in the listing of a computation. */
+bool findErrors(const string& outputFileStr) {
+    bool result = false;
+    ifstream outputFile(outputFileStr);
+    string line;
+    int lineNumber = 0;
+    while (getline(outputFile, line)) {
+        lineNumber += 1;
+        if (line.find("ERROR") != string::npos && line.find("NO ERROR") == string::npos) {
+            cerr << "Error found : line " << lineNumber << " file: " << outputFileStr << endl;
+            result = true;
+        }
+    }
+    return result;
+}
+
+}
+
 Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configuration,
         string modelFile) {
 
@@ -62,7 +82,8 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
         }
     }
 
-    ExitCode exitCode;
+    const string outputFileStr = (outputFsPath / fs::path(fname + ".stdout")).string();
+    ExitCode exitCode = ExitCode::OK;
     if (configuration.systusOutputProduct=="systus") {
         string command = "systus -batch -exec " + shellQuoted(modelFile) + " > " + shellQuoted(fname + ".stdout") + " 2> "
                 + shellQuoted(fname + ".stderr");
@@ -76,6 +97,8 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
             cout << "Command " << command << " ended with exit code " << i << endl;
         }
         exitCode = convertExecResult(i);
+        if (exitCode == ExitCode::OK && findErrors(outputFileStr))
+            exitCode = ExitCode::SOLVER_EXIT_NOT_ZERO;
     } else {
         for (fs::directory_iterator it2( outputFsPath ); it2 != fs::directory_iterator(); it2++ ) {
             if( !fs::is_regular_file( it2->status() ) )
@@ -100,24 +123,14 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
                 cout << "Command " << command << " ended with exit code " << i << endl;
             }
             exitCode = convertExecResult(i);
+            // the listing is overwritten by the next computation
+            if (exitCode == ExitCode::OK && findErrors(outputFileStr))
+                exitCode = ExitCode::SOLVER_EXIT_NOT_ZERO;
             if (exitCode != Runner::ExitCode::OK)
                 return exitCode;
         }
     }
 
-    // test if any error occurred during computation
-    string outputFileStr = (outputFsPath / fs::path(fname + ".stdout")).string();
-    ifstream outputFile(outputFileStr);
-    string line;
-    int lineNumber = 0;
-    while (getline(outputFile, line)) {
-        lineNumber += 1;
-        if (line.find("ERROR") != string::npos && line.find("NO ERROR") == string::npos) {
-            cerr << "Error found : line " << lineNumber << " file: " << outputFileStr << endl;
-            exitCode = Runner::ExitCode::SOLVER_EXIT_NOT_ZERO;
-        }
-    }
-
     // test if result files exist
     if (exitCode == Runner::ExitCode::OK) {
         if (configuration.systusOutputProduct=="systus") {
-- 
2.43.0


From d4f6d0f87f5ce42a9700fc0ca9620d84120785b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:02 +0000
Subject: [PATCH 21/23] fix: old solver results that can't be removed and
 results that can't be read no longer pass for good ones

---
 Abstract/SolverInterfaces.cpp |  6 ++++--
 Aster/AsterRunner.cpp         |  3 +++
 Systus/SystusRunner.cpp       | 12 ++++++++++++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/Abstract/SolverInterfaces.cpp b/Abstract/SolverInterfaces.cpp
index f25b72e..980d415 100644
--- a/Abstract/SolverInterfaces.cpp
+++ b/Abstract/SolverInterfaces.cpp
@@ -25,6 +25,8 @@
 #include "Model.h"
 #include "ConfigurationParameters.h"
 #include <boost/filesystem.hpp>
+#include <cerrno>
+#include <cstring>
 #include <stdio.h>
 
 #if VALGRIND_FOUND && defined VDEBUG && defined __GNUC__ && !defined(_WIN32)
@@ -253,8 +255,8 @@ void Runner::deletePreviousResultFiles(string currentModel, const vector<string>
         string fileToDelete = basePath + extension;
         if (fs::exists(fileToDelete)) {
             if (remove(fileToDelete.c_str()) != 0) {
-                string message = "error removing result file " + fileToDelete;
-                perror(message.c_str());
+                // it must not be taken for a result of the computation to be started
+                throw ios::failure("Error removing result file " + fileToDelete + ": " + strerror(errno));
             }
         }
     }
diff --git a/Aster/AsterRunner.cpp b/Aster/AsterRunner.cpp
index 7a075aa..01263f5 100644
--- a/Aster/AsterRunner.cpp
+++ b/Aster/AsterRunner.cpp
@@ -106,6 +106,9 @@ Runner::ExitCode AsterRunner::execSolver(const ConfigurationParameters &configur
                     exitCode = ExitCode::TEST_FAIL;
                 }
             }
+            if (resuFile.bad()) {
+                throw ios::failure("File " + resuFileStr + " can't be read completely.");
+            }
             if (exitCode == ExitCode::OK && configuration.logLevel >= LogLevel::DEBUG
                     && !configuration.resultFile.empty()) {
                 cout << "Tests OK." << endl;
diff --git a/Systus/SystusRunner.cpp b/Systus/SystusRunner.cpp
index 173e35d..be5dfb9 100644
--- a/Systus/SystusRunner.cpp
+++ b/Systus/SystusRunner.cpp
@@ -40,6 +40,9 @@ namespace {
 bool findErrors(const string& outputFileStr) {
     bool result = false;
     ifstream outputFile(outputFileStr);
+    if (!outputFile.is_open()) {
+        throw ios::failure("File " + outputFileStr + " can't be opened.");
+    }
     string line;
     int lineNumber = 0;
     while (getline(outputFile, line)) {
@@ -49,6 +52,9 @@ bool findErrors(const string& outputFileStr) {
             result = true;
         }
     }
+    if (outputFile.bad()) {
+        throw ios::failure("File " + outputFileStr + " can't be read completely.");
+    }
     return result;
 }
 
@@ -177,6 +183,9 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
             string line2;
             int lineNumber2 = 0;
             ifstream resuFile(resuFileStr);
+            if (!resuFile.is_open()) {
+                throw ios::failure("File " + resuFileStr + " can't be opened.");
+            }
             while (getline(resuFile, line2)) {
                 lineNumber2 += 1;
                 if (line2.find("NOOK") != string::npos) {
@@ -185,6 +194,9 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
                     exitCode = Runner::ExitCode::TEST_FAIL;
                 }
             }
+            if (resuFile.bad()) {
+                throw ios::failure("File " + resuFileStr + " can't be read completely.");
+            }
         }
     }
     return exitCode;
-- 
2.43.0


From cff6e2dc943b5a8cd5d895681ff4e79c73aabca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:02 +0000
Subject: [PATCH 22/23] fix: the SYSTUS runner leaves the files of other
 studies alone

---
 Systus/SystusRunner.cpp | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/Systus/SystusRunner.cpp b/Systus/SystusRunner.cpp
index be5dfb9..ca40572 100644
--- a/Systus/SystusRunner.cpp
+++ b/Systus/SystusRunner.cpp
@@ -27,6 +27,7 @@
 #include <boost/algorithm/string/predicate.hpp>
 #include <iostream>
 #include <fstream>
+#include <regex>
 
 namespace vega {
 namespace systus {
@@ -36,6 +37,15 @@ using namespace std;
 
 namespace {
 
+/*
+ * Is it a file of this study, and not of another one whose name begins alike?
+ * The files of a study are called <study>_<what follows, given as a regular expression>.
+ */
+bool isFileOf(const string& study, const string& filename, const string& rest) {
+    return boost::algorithm::starts_with(filename, study + "_")
+            && regex_match(filename.substr(study.size() + 1), regex(rest));
+}
+
 /* Look for errors reported in the listing of a computation. */
 bool findErrors(const string& outputFileStr) {
     bool result = false;
@@ -65,7 +75,7 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
 
     fs::path modelFilePath(modelFile);
     string fname = modelFilePath.stem().string();
-    string fnamePrefix = fname.substr(0, fname.find("_ALL"));
+    string fnamePrefix = fname.substr(0, fname.rfind("_ALL"));
 
     fs::path outputFsPath(configuration.outputPath);
     cout << configuration.outputPath << endl;
@@ -76,14 +86,11 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
     for (fs::directory_iterator it(outputFsPath); it != fs::directory_iterator(); it++) {
         if (fs::is_regular_file(it->status())) {
             string filename = it->path().filename().string();
-            if (filename.find(fnamePrefix) == 0) {
-                if (boost::algorithm::ends_with(filename, ".TIT")
-                        or boost::algorithm::ends_with(filename, ".fdb")
-                        or boost::algorithm::ends_with(filename, ".RESU")) {
-                    remove(*it);
-                }
-            }
-            if (filename.find("SYSTUS") == 0 && filename.rfind(".DAT") + 4 == filename.size())
+            if (isFileOf(fnamePrefix, filename, "SC[0-9]+(_.*)?\\.(TIT|fdb)|[0-9]+\\.RESU"))
+                remove(*it);
+            // work files of the solver, but not the data of a study called SYSTUS...
+            if (regex_match(filename, regex("SYSTUS.*\\.DAT"))
+                    && not regex_match(filename, regex(".*_(SC[0-9]+|ALL)\\.DAT")))
                 remove(*it);
         }
     }
@@ -110,9 +117,7 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
             if( !fs::is_regular_file( it2->status() ) )
                 continue;
             string datFilename = it2->path().filename().string();
-            if (not boost::algorithm::ends_with(datFilename, ".DAT"))
-                continue;
-            if (not boost::algorithm::starts_with(datFilename, fnamePrefix))
+            if (not isFileOf(fnamePrefix, datFilename, "SC[0-9]+\\.DAT"))
                 continue;
             cout << "Found DAT file:" << datFilename << endl;
             //check if it contains nook
@@ -145,9 +150,7 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
                 if (not fs::is_regular_file( it2->status() ) )
                     continue;
                 string filename2 = it2->path().filename().string();
-                if (not boost::algorithm::ends_with(filename2, ".TIT"))
-                    continue;
-                if (not boost::algorithm::starts_with(filename2, fnamePrefix))
+                if (not isFileOf(fnamePrefix, filename2, "SC[0-9]+(_.*)?\\.TIT"))
                     continue;
                 foundTIT = true;
                 break;
@@ -157,9 +160,7 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
                 if (not fs::is_regular_file( it2->status() ) )
                     continue;
                 string filename2 = it2->path().filename().string();
-                if (not boost::algorithm::ends_with(filename2, ".fdb"))
-                    continue;
-                if (not boost::algorithm::starts_with(filename2, fnamePrefix))
+                if (not isFileOf(fnamePrefix, filename2, "SC[0-9]+(_.*)?\\.fdb"))
                     continue;
                 foundFDB = true;
                 break;
@@ -173,9 +174,7 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
             if( !fs::is_regular_file( it2->status() ) )
                 continue;
             string resuFilename = it2->path().filename().string();
-            if (not boost::algorithm::ends_with(resuFilename, ".RESU"))
-                continue;
-            if (not boost::algorithm::starts_with(resuFilename, fnamePrefix))
+            if (not isFileOf(fnamePrefix, resuFilename, "[0-9]+\\.RESU"))
                 continue;
             cout << "Found RESU file:" << resuFilename << endl;
             //check if it contains nook
-- 
2.43.0


From 2c0a7df92c4f1faa8b5c26380ae1612391f8a167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:02 +0000
Subject: [PATCH 23/23] fix: data of subcases of an earlier SYSTUS translation
 are removed

---
 Systus/SystusWriter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 73f0e3f..448a6a3 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -411,6 +411,12 @@ string SystusWriter::writeModel(Model& model,
     if (configuration.systusOutputProduct=="systus"){
         closeOutputFile(dat_file_ofs, dat_path);
     }
+
+    // subcases of an earlier translation are not to be run with the ones of this study
+    size_t idOldSubcase = systusSubcases.size() + 1;
+    while (fs::remove(systusModel.getOutputFileName("_SC" + to_string(idOldSubcase) + ".DAT"))) {
+        idOldSubcase++;
+    }
     return dat_path;
 }
 
-- 
2.43.0

