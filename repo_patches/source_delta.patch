From 02fa25ff3178833d9be6e378697c1d976e2fe542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:58 +0000
Subject: [PATCH 01/45] fix: refuse materials with NaN constants

A NaN permittivity, permeability or conductivity passed every range
check because comparisons with NaN are false.
---
 src/components/Material.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/components/Material.cpp b/src/components/Material.cpp
index e1c95db..64dad02 100644
--- a/src/components/Material.cpp
+++ b/src/components/Material.cpp
@@ -4,13 +4,13 @@ namespace maxwell {
 
 void verifyParameters(double epsilon, double mu, double sigma) 
 {
-	if (epsilon < 1.0) {
+	if (!(epsilon >= 1.0)) {
 		throw std::runtime_error("Permittivity under 1.0 not allowed.");
 	}
-	if (mu < 1.0) {
+	if (!(mu >= 1.0)) {
 		throw std::runtime_error("Permeability under 1.0 not allowed.");
 	}
-	if (sigma < 0.0) {
+	if (!(sigma >= 0.0)) {
 		throw std::runtime_error("Conductivity under 0.0 not allowed.");
 	}
 }
-- 
2.43.0


From 66018be454466da99592bf0010c438714098d99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:58 +0000
Subject: [PATCH 02/45] fix: keep sources when a collection is assigned to
 itself

Both assignment operators cleared the destination before reading the
source, so self-assignment lost every source.
---
 src/components/Sources.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/components/Sources.h b/src/components/Sources.h
index 1499ba2..1cabf62 100644
--- a/src/components/Sources.h
+++ b/src/components/Sources.h
@@ -85,6 +85,9 @@ public:
 	}
 	Sources& operator=(const Sources& rhs)
 	{
+		if (this == &rhs) {
+			return *this;
+		}
 		v_.clear();
 		for (auto& v : rhs) {
 			v_.push_back(v->clone());
@@ -93,6 +96,9 @@ public:
 	}
 	Sources& operator=(Sources&& rhs)
 	{
+		if (this == &rhs) {
+			return *this;
+		}
 		v_.clear();
 		{
 			for (auto& v : rhs) {
-- 
2.43.0


From 9273680f8b6ec85134d461205c99359848b5c45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:58 +0000
Subject: [PATCH 03/45] fix: zero the components missing from short vectors in
 case files

Vectors given with one or two components left the rest uninitialised.
---
 src/driver/driver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index c5c2323..83b1a25 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -346,6 +346,7 @@ mfem::Vector assembleCenterVector(const json& source_center)
 mfem::Vector assemble3DVector(const json& input)
 {
 	mfem::Vector res(3);
+	res = 0.0;
 	for (int i = 0; i < input.size(); i++) {
 		res[i] = input[i];
 	}
-- 
2.43.0


From 6f8f7c4ef9f3ae6c79a9d07ddf85caf4917d855a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:13:22 +0000
Subject: [PATCH 04/45] fix: skip point and field probes that lie outside the
 mesh

A probe position that no element contains is reported with element -1, which
was then used to evaluate the fields.
---
 src/solver/ProbesManager.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/solver/ProbesManager.cpp b/src/solver/ProbesManager.cpp
index e338b0e..edf283a 100644
--- a/src/solver/ProbesManager.cpp
+++ b/src/solver/ProbesManager.cpp
@@ -199,7 +199,7 @@ void ProbesManager::initPointFieldProbeExport()
         for (const auto& p : probes.pointProbes) {
             if(p.write){
                 const auto& it{ pointProbesCollection_.find(&p) };
-                if (it != pointProbesCollection_.end() && it->second.fesPoint.elementId != -2) {
+                if (it != pointProbesCollection_.end() && it->second.fesPoint.elementId >= 0) {
                     std::ofstream myfile;
                     std::string path(base_path + "PointProbe" + std::to_string(p.getProbeID()) + ".dat");
                     std::vector<double> position = std::vector<double>({0.0, 0.0, 0.0});
@@ -236,7 +236,7 @@ void ProbesManager::initPointFieldProbeExport()
         for (const auto& p : probes.fieldProbes) {
             if(p.write){
                 const auto& it{ fieldProbesCollection_.find(&p) };
-                if (it != fieldProbesCollection_.end() && it->second.fesPoint.elementId != -2) {
+                if (it != fieldProbesCollection_.end() && it->second.fesPoint.elementId >= 0) {
                     std::ofstream myfile;
                     std::string path(base_path + "FieldProbe" + std::to_string(p.getProbeID()) + ".dat");
                     std::vector<double> position = std::vector<double>({0.0, 0.0, 0.0});
@@ -352,7 +352,7 @@ void ProbesManager::updateProbe(FieldProbe& p, Time time)
     const auto& it{ fieldProbesCollection_.find(&p) };
     assert(it != fieldProbesCollection_.end());
     const auto& pC{ it->second };
-    if (pC.fesPoint.elementId != -2){
+    if (pC.fesPoint.elementId >= 0){
 
         real_t gf_value = pC.field.GetValue(pC.fesPoint.elementId, pC.fesPoint.iP);
 
@@ -383,7 +383,7 @@ void ProbesManager::updateProbe(PointProbe& p, Time time)
     const auto& it{ pointProbesCollection_.find(&p) };
     assert(it != pointProbesCollection_.end());
     const auto& pC{ it->second };
-    if (pC.fesPoint.elementId != -2){
+    if (pC.fesPoint.elementId >= 0){
         FieldsForMovie f4FP;
         {
             f4FP.Ex = pC.field_Ex.GetValue(pC.fesPoint.elementId, pC.fesPoint.iP);
-- 
2.43.0


From d5ddfe94768446095474777a580e806030256d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:42:38 +0000
Subject: [PATCH 05/45] fix: refuse initial sources of unknown magnitude
 instead of dropping them

---
 src/driver/driver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index 83b1a25..03309c9 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -562,6 +562,9 @@ Sources buildSources(const json& case_data, const mfem::Mesh* mesh)
 					assemble3DVector(case_data["sources"][s]["polarization"]))
 				);
 			}
+			else {
+				throw std::runtime_error("Unknown magnitude type of initial source in Json.");
+			}
 		}
 		else if (case_data["sources"][s]["type"] == "planewave") {
 			const auto& mag = case_data["sources"][s]["magnitude"];
-- 
2.43.0


From 2520ec4a7e67d63c52c9271f9c051e694fe224a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:42:38 +0000
Subject: [PATCH 06/45] fix: let save counts work with the default time step
 and final time

---
 src/driver/driver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index 03309c9..b2f22c8 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -726,8 +726,9 @@ Probes buildProbes(const json& case_data)
             int requested_saves = probe_data["saves"];
             if (requested_saves <= 0) return 1;
 
-            double t_final = case_data["solver_options"]["final_time"].get<double>();
-            double dt = case_data["solver_options"]["time_step"].get<double>();
+            const SolverOptions opts{ buildSolverOptions(case_data) };
+            double t_final = opts.final_time;
+            double dt = opts.time_step;
             if (dt <= 0.0) return 1; // Placeholder; will be corrected by recalculateExportSteps
 
             int total_simulation_steps = static_cast<int>(std::ceil(t_final / dt));
-- 
2.43.0


From bfa5e77917d63dabd3a09483d3881d1c1ce49664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:42:54 +0000
Subject: [PATCH 07/45] fix: refuse case entries without their mandatory keys

---
 src/driver/driver.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index b2f22c8..9748f7b 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -296,6 +296,13 @@ inline void checkIfThrows(bool condition, const std::string& msg)
 	}
 }
 
+void checkIfKeysArePresent(const json& entry, const std::vector<std::string>& keys, const std::string& name)
+{
+	for (const auto& key : keys) {
+		checkIfThrows(entry.contains(key), "JSON data does not include '" + key + "' in '" + name + "'.");
+	}
+}
+
 const FieldType assignFieldType(const std::string& field_type)
 {
 	if (field_type == "electric") {
@@ -532,9 +539,15 @@ std::unique_ptr<TotalField> buildDerivGaussDipole(
 Sources buildSources(const json& case_data, const mfem::Mesh* mesh)
 {
 	Sources res;
+	checkIfKeysArePresent(case_data, { "sources" }, "case");
 	for (auto s{ 0 }; s < case_data["sources"].size(); s++) {
+		checkIfKeysArePresent(case_data["sources"][s], { "type", "magnitude" }, "sources");
 		if (case_data["sources"][s]["type"] == "initial") {
+			checkIfKeysArePresent(case_data["sources"][s], { "field_type", "polarization" }, "sources");
+			checkIfKeysArePresent(case_data["sources"][s]["magnitude"], { "type" }, "magnitude");
 			if (case_data["sources"][s]["magnitude"]["type"] == "gaussian") {
+				checkIfKeysArePresent(case_data["sources"][s], { "center", "dimension" }, "sources");
+				checkIfKeysArePresent(case_data["sources"][s]["magnitude"], { "spread" }, "magnitude");
 				res.add(buildGaussianInitialField(
 					assignFieldType(case_data["sources"][s]["field_type"]),
 					case_data["sources"][s]["magnitude"]["spread"],
@@ -544,6 +557,7 @@ Sources buildSources(const json& case_data, const mfem::Mesh* mesh)
 				);
 			}
 			else if (case_data["sources"][s]["magnitude"]["type"] == "resonant") {
+				checkIfKeysArePresent(case_data["sources"][s]["magnitude"], { "modes" }, "magnitude");
 				res.add(buildResonantModeInitialField(
 					assignFieldType(case_data["sources"][s]["field_type"]),
 					assemble3DVector(case_data["sources"][s]["polarization"]),
@@ -568,6 +582,8 @@ Sources buildSources(const json& case_data, const mfem::Mesh* mesh)
 		}
 		else if (case_data["sources"][s]["type"] == "planewave") {
 			const auto& mag = case_data["sources"][s]["magnitude"];
+			checkIfKeysArePresent(case_data["sources"][s], { "polarization", "propagation" }, "sources");
+			checkIfKeysArePresent(mag, { "spread" }, "magnitude");
 			double spread = mag["spread"].get<double>();
 
 			// Determine mean: use explicit value if provided, otherwise auto-compute
@@ -613,6 +629,7 @@ Sources buildSources(const json& case_data, const mfem::Mesh* mesh)
 		}
 		else if (case_data["sources"][s]["type"] == "dipole") {
 			const auto& mag = case_data["sources"][s]["magnitude"];
+			checkIfKeysArePresent(mag, { "length", "spread" }, "magnitude");
 			double length = mag["length"].get<double>();
 			double spread = mag["spread"].get<double>();
 
@@ -753,6 +770,7 @@ Probes buildProbes(const json& case_data)
 
         if (case_data["probes"].contains("point")) {
             for (int p = 0; p < case_data["probes"]["point"].size(); p++) {
+                checkIfKeysArePresent(case_data["probes"]["point"][p], { "position" }, "point");
                 int interval = calculate_interval(case_data["probes"]["point"][p]);
                 PointProbe point_probe(
                     assembleVector(case_data["probes"]["point"][p]["position"]),
@@ -768,6 +786,7 @@ Probes buildProbes(const json& case_data)
 
         if (case_data["probes"].contains("field")) {
             for (int p = 0; p < case_data["probes"]["field"].size(); p++) {
+                checkIfKeysArePresent(case_data["probes"]["field"][p], { "field_type", "polarization", "position" }, "field");
                 int interval = calculate_interval(case_data["probes"]["field"][p]);
                 FieldProbe field_probe(
                     assignFieldType(case_data["probes"]["field"][p]["field_type"]),
@@ -954,8 +973,10 @@ GeomTagToMaterialInfo assembleAttributeToMaterial(const json& case_data, const m
 
 	checkIfThrows(case_data.contains("model"), "JSON data does not include 'model'.");
 	checkIfThrows(case_data["model"].contains("materials"), "JSON data does not include 'materials'.");
+	checkIfKeysArePresent(case_data["model"], { "boundaries" }, "model");
 
 	for (auto m = 0; m < case_data["model"]["materials"].size(); m++) {
+		checkIfKeysArePresent(case_data["model"]["materials"][m], { "tags" }, "materials");
 		for (auto t = 0; t < case_data["model"]["materials"][m]["tags"].size(); t++) {
 			double eps{ 1.0 }, mu{ 1.0 }, sigma{ 0.0 };
 			if (case_data["model"]["materials"][m].contains("relative_permittivity")) {
@@ -972,6 +993,7 @@ GeomTagToMaterialInfo assembleAttributeToMaterial(const json& case_data, const m
 	}
 
 	for (auto b = 0; b < case_data["model"]["boundaries"].size(); b++) {
+		checkIfKeysArePresent(case_data["model"]["boundaries"][b], { "tags" }, "boundaries");
 		for (auto a = 0; a < case_data["model"]["boundaries"][b]["tags"].size(); a++) {
 			if (case_data["model"]["boundaries"][b].contains("material")) {
 				double eps{ 1.0 }, mu{ 1.0 }, sigma{ 0.0 };
@@ -1201,6 +1223,7 @@ Array<int> getTFSFTags(const json& case_data)
         if (case_data["sources"][s].contains("type") &&
             (case_data["sources"][s]["type"] == "planewave" ||
              case_data["sources"][s]["type"] == "dipole")) {
+            checkIfKeysArePresent(case_data["sources"][s], { "tags" }, "sources");
             for (int t = 0; t < case_data["sources"][s]["tags"].size(); ++t) {
                 res.Append(case_data["sources"][s]["tags"][t]);
             }
-- 
2.43.0


From 6e141ceda5ae94ef6b89f35604e020be97cb629d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:09 +0000
Subject: [PATCH 08/45] fix: locate the mesh of cases whose path contains an
 extension elsewhere

---
 src/driver/driver.cpp | 39 ++++++++++++---------------------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index 9748f7b..7421a05 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -912,39 +912,24 @@ BdrCond assignBdrCond(const std::string& bdr_cond)
 
 std::string assembleMeshString(const std::string& filename)
 {
-	std::string folder_name{ filename };
-	std::string s_msh = ".msh";
-	std::string s_mesh = ".mesh";
+	std::filesystem::path folder_name{ filename };
 
-	std::string::size_type input_msh = folder_name.find(s_msh);
-	std::string::size_type input_mesh = folder_name.find(s_mesh);
+	if (folder_name.extension() == ".msh" || folder_name.extension() == ".mesh")
+		folder_name.replace_extension();
 
-	if (input_msh != std::string::npos)
-		folder_name.erase(input_msh, s_msh.length());
-	if (input_mesh != std::string::npos)
-		folder_name.erase(input_mesh, s_mesh.length());
-
-	return maxwellInputsFolder() + folder_name + "/" + filename;
+	return maxwellInputsFolder() + folder_name.string() + "/" + filename;
 }
 
 std::string assembleLauncherMeshString(const std::string& mesh_name, const std::string& case_path)
 {
-	std::string path{ case_path };
-	std::string s_json = ".json";
-	std::string s_msh  = ".msh";
-	std::string s_mesh = ".mesh";
-
-	std::string::size_type input_json = path.find(s_json);
-	std::string::size_type input_msh = mesh_name.find(s_msh);
-	std::string::size_type input_mesh = mesh_name.find(s_mesh);
-
-	path.erase(input_json, s_json.length());
-	if (input_msh != std::string::npos)
-		path.append(s_msh);
-	if (input_mesh != std::string::npos)
-		path.append(s_mesh);
-
-	return path;
+	std::filesystem::path path{ case_path };
+	const std::filesystem::path extension{ std::filesystem::path(mesh_name).extension() };
+
+	path.replace_extension();
+	if (extension == ".msh" || extension == ".mesh")
+		path += extension;
+
+	return path.string();
 }
 
 void checkIfAttributesArePresent(const Mesh& mesh, const GeomTagToMaterialInfo& info)
-- 
2.43.0


From 542b03a62285db2e2afb2e81af5a6b1b446bff19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:27 +0000
Subject: [PATCH 09/45] fix: treat regions without a declared material as
 vacuum

---
 src/components/Model.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/components/Model.cpp b/src/components/Model.cpp
index 5dcb966..bea1712 100644
--- a/src/components/Model.cpp
+++ b/src/components/Model.cpp
@@ -136,6 +136,9 @@ mfem::Vector Model::initialiseGeomTagVector() const
 			size = geomTag;
 		}
 	}
+	for (auto e = 0; e < pmesh_.GetNE(); e++) {
+		size = std::max(size, pmesh_.GetAttribute(e));
+	}
 	assert(size > 0);
 	mfem::Vector res(size);
 	res = 0.0;
@@ -145,6 +148,7 @@ mfem::Vector Model::initialiseGeomTagVector() const
 mfem::Vector Model::buildEpsMuPiecewiseVector(const FieldType& f) const
 {
 	auto res{ initialiseGeomTagVector() };
+	res = 1.0;
 
 	for (auto const& [geomTag, mat] : attToMatMap_) {
 		switch (f) {
-- 
2.43.0


From cf1432b2fabe4959ece163ae7524960a0eb69b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:52 +0000
Subject: [PATCH 10/45] fix: do not write past the boundary markers for tags
 the mesh lacks

---
 src/components/Model.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/components/Model.cpp b/src/components/Model.cpp
index bea1712..0965a1e 100644
--- a/src/components/Model.cpp
+++ b/src/components/Model.cpp
@@ -197,7 +197,9 @@ void Model::assembleGeomTagToTypeMap(
 			initMarker(getMarker(bdr, isInterior), pmesh_.bdr_attributes.Max());
 		}
 
-		marker[geomTag - 1] = 1;
+		if (geomTag <= marker.Size()) {
+			marker[geomTag - 1] = 1;
+		}
 	}
 }
 
-- 
2.43.0


From 847be963a343ebdd4212215b54718f737a5a940a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:45:57 +0000
Subject: [PATCH 11/45] fix: do not rewrite the mesh file while other ranks
 still read it

---
 src/driver/driver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index 7421a05..dc3b05e 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -1191,7 +1191,9 @@ mfem::Mesh assembleMesh(const std::string& mesh_string)
 		fixGmshMesh(mesh_string);
 	}
 	MPI_Barrier(MPI_COMM_WORLD);
-	return mfem::Mesh::LoadFromFile(mesh_string, 1, 0, true);
+	auto res{ mfem::Mesh::LoadFromFile(mesh_string, 1, 0, true) };
+	MPI_Barrier(MPI_COMM_WORLD);
+	return res;
 }
 
 mfem::Mesh assembleMeshNoFix(const std::string& mesh_string)
-- 
2.43.0


From 121cc66b7c9bf4e656bedac2ca18db8ca867457c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:48:29 +0000
Subject: [PATCH 12/45] fix: refuse vectors of more than three components in
 case files

---
 src/driver/driver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index dc3b05e..6300b67 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -352,6 +352,7 @@ mfem::Vector assembleCenterVector(const json& source_center)
 
 mfem::Vector assemble3DVector(const json& input)
 {
+	checkIfThrows(input.size() <= 3, "JSON vector has more than three components.");
 	mfem::Vector res(3);
 	res = 0.0;
 	for (int i = 0; i < input.size(); i++) {
-- 
2.43.0


From efd2d45456d2b0b0907905dc22a9147ef368c427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:48:29 +0000
Subject: [PATCH 13/45] fix: do not read past centres with fewer coordinates
 than the mesh

---
 src/components/Sources.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/Sources.cpp b/src/components/Sources.cpp
index e54bb85..893b5f9 100644
--- a/src/components/Sources.cpp
+++ b/src/components/Sources.cpp
@@ -46,7 +46,7 @@ double InitialField::eval(
 	Position pos(p.Size());
 	Position center(p.Size());
 	center = 0.0;
-	for (int v{0}; v < center.Size(); v++){
+	for (int v{0}; v < std::min(center.Size(), center_.Size()); v++){
 		center[v] = center_[v];
 	}
 	for (int i{ 0 }; i < p.Size(); ++i) {
-- 
2.43.0


From 4042e0e8e36df1a3fa0f1f2f5a85b089e491d7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:49:55 +0000
Subject: [PATCH 14/45] fix: refuse negative time steps, which never reach the
 final time

---
 src/solver/Solver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/Solver.cpp b/src/solver/Solver.cpp
index 9504984..e3989a3 100644
--- a/src/solver/Solver.cpp
+++ b/src/solver/Solver.cpp
@@ -152,7 +152,8 @@ void Solver::checkOptionsAreValid(const SolverOptions& opts) const
 {
     
     if ((opts.evolution.order < 0) ||
-        (opts.final_time < 0)) {
+        (opts.final_time < 0) ||
+        (opts.time_step < 0)) {
         throw std::runtime_error("Incorrect parameters in Options");
     }
 
-- 
2.43.0


From 6b039ad63b5e527809d9b518461acb18a35a9f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:57:55 +0000
Subject: [PATCH 15/45] fix: leave mesh files of other gmsh formats untouched

---
 src/driver/driver.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index 6300b67..18f519c 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -1093,6 +1093,19 @@ static bool shouldDeleteElement(int etype, int dim)
     return false; // 1D: keep everything
 }
 
+static bool isGmsh2Ascii(const std::vector<std::string>& header_lines)
+{
+    for (size_t l = 0; l + 1 < header_lines.size(); ++l) {
+        if (header_lines[l].find("$MeshFormat") != std::string::npos) {
+            std::istringstream iss(header_lines[l + 1]);
+            double version;
+            int fileType;
+            return (iss >> version >> fileType) && version >= 2.0 && version < 3.0 && fileType == 0;
+        }
+    }
+    return false;
+}
+
 void fixGmshMesh(const std::string& filepath)
 {
     // Only process .msh files (Gmsh 2.2 ASCII).
@@ -1142,6 +1155,7 @@ void fixGmshMesh(const std::string& filepath)
     }
 
     if (element_lines.empty()) return;
+    if (!isGmsh2Ascii(header_lines)) return;
 
     int dim = detectMeshDimension(element_lines);
 
-- 
2.43.0


From d8f7448c4c46105e9d6f1a4129b3cce8b99768ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:00:07 +0000
Subject: [PATCH 16/45] fix: size thin layers for the highest frequency among
 all sources

---
 src/driver/driver.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index 18f519c..faf7796 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -49,12 +49,12 @@ double calculateMaximumSourceFrequency(const json& case_data)
         }
     }
 
-    if (found_modulated) {
-        return max_freq;
+    if (found_gaussian) {
+        max_freq = std::max(max_freq, c_si / (2.0 * min_spread));
     }
 
-    if (found_gaussian) {
-        return c_si / (2.0 * min_spread);
+    if (found_modulated || found_gaussian) {
+        return max_freq;
     }
 
     return 1e9;
-- 
2.43.0


From a7b600d0b7f3ddd5b55fef492addbcc081d5cfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:01:11 +0000
Subject: [PATCH 17/45] fix: size thin layers for pulses declared without a
 magnitude type

---
 src/driver/driver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index faf7796..a1606f6 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -38,8 +38,8 @@ double calculateMaximumSourceFrequency(const json& case_data)
                     max_freq = f_edge;
                     found_modulated = true;
                 }
-            // Plain Gaussian: explicit type="gaussian", no frequency
-            } else if (mag.contains("type") && mag["type"] == "gaussian" && mag.contains("spread")) {
+            // Plain Gaussian: type="gaussian" or no type (plane waves and dipoles), no frequency
+            } else if ((!mag.contains("type") || mag["type"] == "gaussian") && mag.contains("spread")) {
                 double spread = mag["spread"].get<double>();
                 if (spread > 0.0 && spread < min_spread) {
                     min_spread = spread;
-- 
2.43.0


From 72c8bc548ce2300f6869ac82714fb51b77af12a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:25:38 +0000
Subject: [PATCH 18/45] fix: ignore partially written snapshots of a surface
 recording

A recording cut short by a crash ended with a record that was only partly
on disk.  It was completed with zeros and averaged in.  Only complete
records are used now, and a recording without one is an error.
---
 src/components/RCSSurfacePostProcessor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/components/RCSSurfacePostProcessor.cpp b/src/components/RCSSurfacePostProcessor.cpp
index e39d8ce..a02aa1a 100644
--- a/src/components/RCSSurfacePostProcessor.cpp
+++ b/src/components/RCSSurfacePostProcessor.cpp
@@ -81,6 +81,7 @@ RCSSurfacePostProcessor::readRankData(const std::string& rankPath) const
 
     int32_t hdr[5];
     f.read(reinterpret_cast<char*>(hdr), sizeof(hdr));
+    if (!f) throw std::runtime_error("Incomplete surface data in " + rankPath + "/surface_data.bin");
     rd.geometry.spaceDimension = hdr[0];
     rd.geometry.numDofs        = hdr[1];
     rd.geometry.numBdrElements = hdr[2];
@@ -100,6 +101,7 @@ RCSSurfacePostProcessor::readRankData(const std::string& rankPath) const
            nqp * 3 * sizeof(double));
     f.read(reinterpret_cast<char*>(rd.geometry.weights.data()),
            nqp * sizeof(double));
+    if (!f) throw std::runtime_error("Incomplete surface data in " + rankPath + "/surface_data.bin");
 
     const int ndofs = rd.geometry.numDofs;
     while (f.peek() != EOF) {
@@ -112,8 +114,10 @@ RCSSurfacePostProcessor::readRankData(const std::string& rankPath) const
             vec->resize(ndofs);
             f.read(reinterpret_cast<char*>(vec->data()), ndofs * sizeof(double));
         }
+        if (!f) break;
         rd.snapshots.push_back(std::move(snap));
     }
+    if (rd.snapshots.empty()) throw std::runtime_error("No complete snapshot in " + rankPath + "/surface_data.bin");
     return rd;
 }
 
-- 
2.43.0


From 5896f5567f8c30f3cdaad3534489ed64f5308788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:25:38 +0000
Subject: [PATCH 19/45] fix: refuse RCS normalisation without a plane wave

The check for a missing plane wave compared with the wrong sign of the
initial values, so cross sections were normalised with a made-up pulse.
---
 src/components/FarField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/FarField.cpp b/src/components/FarField.cpp
index 290eb3a..c2e2b30 100644
--- a/src/components/FarField.cpp
+++ b/src/components/FarField.cpp
@@ -260,7 +260,7 @@ PlaneWaveData buildPlaneWaveData(const json& json, const std::string& meshDir)
 		}
 	}
 
-	if (std::abs(spread - 1e5) < 1e-6 || std::abs(projMean - 1e5) < 1e-6) {
+	if (std::abs(spread + 1e5) < 1e-6 || std::abs(projMean + 1e5) < 1e-6) {
 		throw std::runtime_error("Verify PlaneWaveData inputs for RCS normalization term.");
 	}
 
-- 
2.43.0


From e847ebf5d414f661c8cdd8e56131fa4b9a94a35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:25:38 +0000
Subject: [PATCH 20/45] fix: far-field phase of points along the observation
 direction

The cosine of the angle to the observation direction could exceed one by
rounding, or be 0/0 at the origin, which made the whole far field NaN.
---
 src/components/FarField.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/components/FarField.cpp b/src/components/FarField.cpp
index c2e2b30..56ad0cb 100644
--- a/src/components/FarField.cpp
+++ b/src/components/FarField.cpp
@@ -20,6 +20,13 @@ const Vector buildObsPointVec(const SphericalAngles& angles)
 	return res;
 }
 
+// Angle between two vectors. Rounding may push the cosine slightly beyond one; at the origin any angle does.
+static double calcAngle(const double dot, const double norms)
+{
+	if (norms == 0.0) { return M_PI_2; }
+	return std::acos(std::max(-1.0, std::min(1.0, dot / norms)));
+}
+
 double calcPsiAngle2D(const Vector& p, const SphericalAngles& angles)
 {
 	auto vec{ buildObsPointVec(angles) };
@@ -27,13 +34,13 @@ double calcPsiAngle2D(const Vector& p, const SphericalAngles& angles)
 	surfVec[0] = p[0];
 	surfVec[1] = p[1];
 	surfVec[2] = 0.0;
-	return std::acos((vec[0] * surfVec[0] + vec[1] * surfVec[1] + vec[2] * surfVec[2])  / (vec.Norml2() * surfVec.Norml2()));
+	return calcAngle(vec[0] * surfVec[0] + vec[1] * surfVec[1] + vec[2] * surfVec[2], vec.Norml2() * surfVec.Norml2());
 }
 
 double calcPsiAngle3D(const Vector& p, const SphericalAngles& angles)
 {
 	auto vec{ buildObsPointVec(angles) };
-	return std::acos((vec[0] * p[0] + vec[1] * p[1] + vec[2] * p[2]) / (vec.Norml2() * p.Norml2()));
+	return calcAngle(vec[0] * p[0] + vec[1] * p[1] + vec[2] * p[2], vec.Norml2() * p.Norml2());
 }
 
 /* These functions represent the exponential part of e^(+j k r' cos(psi)) found in Equations 8.31 and 8.32 of Taflove's Computational Electrodynamics: The Finite-Difference Time-Domain Method. 
-- 
2.43.0


From 4ddfbd09566ea850349de89209dd4c62b352f40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:25:38 +0000
Subject: [PATCH 21/45] fix: post-process surface probes that rely on the
 default name

The simulation stores a surface probe without a name under the default
name, but the post-processing of that case was refused.
---
 src/driver/rcs_driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/driver/rcs_driver.cpp b/src/driver/rcs_driver.cpp
index e9e774f..65160cd 100644
--- a/src/driver/rcs_driver.cpp
+++ b/src/driver/rcs_driver.cpp
@@ -71,7 +71,7 @@ void runRCSPostProcessing(const std::string& rcsJsonPath)
 		maxTime = rcsInput["max_time"].get<double>();
 
 	for (const auto& probe : caseData["probes"]["rcssurface"]) {
-		std::string probeName = probe.at("name");
+		std::string probeName = probe.value("name", RCSSurfaceProbe().name);
 		std::string dataPath = "./Exports/" + runmode + "/" + casename
 			+ "/RCSSurface/" + probeName + "/";
 
-- 
2.43.0


From bca1d5ce5f2d22b747733007f7dff8276545a71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:25:38 +0000
Subject: [PATCH 22/45] fix: refuse post-processing of an empty list of surface
 probes

Such a request ended successfully without producing any result.
---
 src/driver/rcs_driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/driver/rcs_driver.cpp b/src/driver/rcs_driver.cpp
index 65160cd..feb5f5e 100644
--- a/src/driver/rcs_driver.cpp
+++ b/src/driver/rcs_driver.cpp
@@ -42,7 +42,7 @@ void runRCSPostProcessing(const std::string& rcsJsonPath)
 
 	auto caseData = parseJSONfile(caseJson);
 
-	if (!caseData.contains("probes") || !caseData["probes"].contains("rcssurface"))
+	if (!caseData.contains("probes") || !caseData["probes"].contains("rcssurface") || caseData["probes"]["rcssurface"].empty())
 		throw std::runtime_error("Case JSON has no rcssurface probes: " + caseJson);
 
 	auto& freqSpec = rcsInput.at("frequencies");
-- 
2.43.0


From cd232c770dbdbe30fd051f8f128c5564ee34fcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:27:09 +0000
Subject: [PATCH 23/45] fix: repeated angles or frequencies in a far-field
 request

A range with equal start and end and several steps repeats its value. The
amplitudes of every repetition were summed, which multiplied the far field
and the cross section by the square of the number of repetitions.
---
 src/components/RCSSurfacePostProcessor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/components/RCSSurfacePostProcessor.cpp b/src/components/RCSSurfacePostProcessor.cpp
index a02aa1a..806c65a 100644
--- a/src/components/RCSSurfacePostProcessor.cpp
+++ b/src/components/RCSSurfacePostProcessor.cpp
@@ -7,6 +7,7 @@
 #include <iomanip>
 #include <iostream>
 #include <regex>
+#include <set>
 #include <stdexcept>
 
 #include <omp.h>
@@ -321,11 +322,15 @@ void RCSSurfacePostProcessor::computeAndWriteResults(
         // --- For each frequency and angle, compute far-field potentials ---
         std::cout << "    Far-field integration: " << nFreq
                   << " frequencies x " << angles.size() << " angles..." << std::flush;
+        std::set<std::pair<SphericalAngles, double>> accumulated;
         for (int fi = 0; fi < nFreq; ++fi) {
             const double freq = normFreqs[fi];
             const double k = 2.0 * M_PI * freq;
 
             for (const auto& ang : angles) {
+                // A repeated angle or frequency must not be summed twice.
+                if (!accumulated.insert({ang, freq}).second) continue;
+
                 // Build phase-term function coefficients.
                 std::unique_ptr<FunctionCoefficient> fcR, fcI;
                 if (spaceDim == 2) {
-- 
2.43.0


From 59d0c767dc29b51c43995c98dde406fec2b484b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:27:50 +0000
Subject: [PATCH 24/45] fix: keep the element layout when loading a near-field
 recording

The mesh was loaded with refinement marking, which rotates the vertices of
triangles and tetrahedra. The recorded nodal values were then attributed to
the wrong nodes.
---
 src/components/FarField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/FarField.cpp b/src/components/FarField.cpp
index 56ad0cb..4f4f1c1 100644
--- a/src/components/FarField.cpp
+++ b/src/components/FarField.cpp
@@ -451,7 +451,7 @@ void FreqFields::normaliseFields(const double value)
 
 FarField::FarField(const std::string& data_path, const std::string& json_path, std::vector<Frequency>& frequencies, const std::vector<SphericalAngles>& angle_vec)
 {
-	auto mesh = Mesh::LoadFromFile(data_path + "/mesh");
+	auto mesh = Mesh::LoadFromFile(data_path + "/mesh", 1, 0);
 	auto pmesh = ParMesh(MPI_COMM_WORLD, mesh);
 	auto sfes = buildFESFromGF(mesh, data_path);
 	auto fec = dynamic_cast<const DG_FECollection*>(sfes->FEColl());
-- 
2.43.0


From 81e5fe2390a36164a20ac610e9933ea33389c58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:30:45 +0000
Subject: [PATCH 25/45] fix: allow ranks without a part of a recorded surface

A parallel run with a surface probe aborted as soon as one rank held no
element next to the surface. Such ranks have nothing to record.
---
 src/solver/ProbesManager.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/solver/ProbesManager.cpp b/src/solver/ProbesManager.cpp
index edf283a..9d8d1a2 100644
--- a/src/solver/ProbesManager.cpp
+++ b/src/solver/ProbesManager.cpp
@@ -1,6 +1,7 @@
 #include "ProbesManager.h"
 #include "math/PhysicalConstants.h"
 #include "general/text.hpp"
+#include <algorithm>
 #include <cmath>
 #include <filesystem>
 
@@ -570,6 +571,19 @@ void ProbesManager::initRCSSurfaceExporters()
         if (!dgfec) {
             throw std::runtime_error("The FiniteElementCollection in the FiniteElementSpace is not DG.");
         }
+        // Ranks that hold no part of a surface present on other ranks have nothing to record.
+        const auto* mesh = fes_.GetMesh();
+        int onThisRank = 0, onAnyRank = 0;
+        for (int be = 0; be < mesh->GetNBE(); ++be) {
+            if (std::find(p.tags.begin(), p.tags.end(), mesh->GetBdrAttribute(be)) != p.tags.end()) {
+                onThisRank = 1;
+                break;
+            }
+        }
+        MPI_Allreduce(&onThisRank, &onAnyRank, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
+        if (!onThisRank && onAnyRank) {
+            continue;
+        }
         rcsSurfaceExporters_.emplace(&p,
             std::make_unique<RCSSurfaceExporter>(p, dgfec, fes_, *fields_, caseName_));
     }
-- 
2.43.0


From 35a50e1be143cb616d6c783007c34984ea048561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:31:14 +0000
Subject: [PATCH 26/45] fix: apply full-strength conditions on interior sheets
 in the nodal formulation

---
 src/evolution/HesthavenEvolution.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/evolution/HesthavenEvolution.cpp b/src/evolution/HesthavenEvolution.cpp
index f678a83..62f1ee9 100644
--- a/src/evolution/HesthavenEvolution.cpp
+++ b/src/evolution/HesthavenEvolution.cpp
@@ -306,9 +306,9 @@ void HesthavenEvolution::applyBoundaryConditionsToNodes(const BoundaryMaps& bdrM
 		}
 	};
 
-	applyIntBdrBC(bdrMaps.intPEC, -1.0, 0.0);
-	applyIntBdrBC(bdrMaps.intPMC, 0.0, -1.0);
-	applyIntBdrBC(bdrMaps.intSMA, -0.5, -0.5);
+	applyIntBdrBC(bdrMaps.intPEC, -2.0, 0.0);
+	applyIntBdrBC(bdrMaps.intPMC, 0.0, -2.0);
+	applyIntBdrBC(bdrMaps.intSMA, -1.0 / opts_.alpha, -1.0 / opts_.alpha);
 
 }
 
-- 
2.43.0


From 6660ae63c9828fdc37ae49485fa376db371be2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:32:56 +0000
Subject: [PATCH 27/45] fix: absorbing faces of the nodal formulation
 independent of the flux penalty

---
 src/evolution/HesthavenEvolution.cpp | 19 ++++++++++++++-----
 src/evolution/HesthavenEvolution.h   |  1 +
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/evolution/HesthavenEvolution.cpp b/src/evolution/HesthavenEvolution.cpp
index 62f1ee9..f729cee 100644
--- a/src/evolution/HesthavenEvolution.cpp
+++ b/src/evolution/HesthavenEvolution.cpp
@@ -289,7 +289,7 @@ void HesthavenEvolution::applyBoundaryConditionsToNodes(const BoundaryMaps& bdrM
 
 	applyBdrBC(bdrMaps.PEC, -2.0, 0.0);
 	applyBdrBC(bdrMaps.PMC, 0.0, -2.0);
-	applyBdrBC(bdrMaps.SMA, -1.0 / opts_.alpha, -1.0 / opts_.alpha);
+	applyBdrBC(bdrMaps.SMA, -1.0, -1.0);
 
 	auto applyIntBdrBC = [&](const auto& bc, double e_coeff, double h_coeff) {
 		for (int m = 0; m < bc.mapBElem1.size(); m++) {
@@ -308,7 +308,7 @@ void HesthavenEvolution::applyBoundaryConditionsToNodes(const BoundaryMaps& bdrM
 
 	applyIntBdrBC(bdrMaps.intPEC, -2.0, 0.0);
 	applyIntBdrBC(bdrMaps.intPMC, 0.0, -2.0);
-	applyIntBdrBC(bdrMaps.intSMA, -1.0 / opts_.alpha, -1.0 / opts_.alpha);
+	applyIntBdrBC(bdrMaps.intSMA, -1.0, -1.0);
 
 }
 
@@ -344,6 +344,15 @@ HesthavenEvolution::HesthavenEvolution(ParFiniteElementSpace& fes, Model& model,
 
 	checkForTFSFInCurvedElements();
 
+	penalty_ = Eigen::VectorXd::Constant(connectivity_.global.size(), opts_.alpha);
+	for (const auto& maps : { connectivity_.boundary.SMA.mapB, connectivity_.boundary.intSMA.mapBElem1, connectivity_.boundary.intSMA.mapBElem2 }) {
+		for (const auto& nodes : maps) {
+			for (const auto& v : nodes) {
+				penalty_[v] = 1.0;
+			}
+		}
+	}
+
 	hestElemLinearStorage_.resize(linearElements_.Size());
 
 	bool allElementsSameGeomType = true; 
@@ -449,7 +458,6 @@ void loadOutVectors(const Eigen::VectorXd& data, const FiniteElementSpace& fes,
 
 void HesthavenEvolution::Mult(const Vector& in, Vector& out) const
 {
-	double alpha = opts_.alpha;
 	in.UseDevice(true);
 	out.UseDevice(true);
 
@@ -505,6 +513,7 @@ void HesthavenEvolution::Mult(const Vector& in, Vector& out) const
 		}
 
 		HesthavenFields elemFlux(elemFluxSize);
+		const Eigen::VectorXd alpha{ penalty_.segment(hestElemLinearStorage_[e].id * elemFluxSize, elemFluxSize) };
 
 		for (int x = X; x <= Z; x++) {
 			int y = (x + 1) % 3;
@@ -514,8 +523,8 @@ void HesthavenEvolution::Mult(const Vector& in, Vector& out) const
 			const Eigen::VectorXd& nory = hestElemLinearStorage_[e].normals[y];
 			const Eigen::VectorXd& norz = hestElemLinearStorage_[e].normals[z];
 
-			elemFlux.h_[x] = -1.0 * nory.asDiagonal() * jumpsElem.e_[z] +       norz.asDiagonal() * jumpsElem.e_[y] + alpha * (jumpsElem.h_[x] - ndotdH.asDiagonal() * norx);
-			elemFlux.e_[x] =        nory.asDiagonal() * jumpsElem.h_[z] - 1.0 * norz.asDiagonal() * jumpsElem.h_[y] + alpha * (jumpsElem.e_[x] - ndotdE.asDiagonal() * norx);
+			elemFlux.h_[x] = -1.0 * nory.asDiagonal() * jumpsElem.e_[z] +       norz.asDiagonal() * jumpsElem.e_[y] + alpha.asDiagonal() * (jumpsElem.h_[x] - ndotdH.asDiagonal() * norx);
+			elemFlux.e_[x] =        nory.asDiagonal() * jumpsElem.h_[z] - 1.0 * norz.asDiagonal() * jumpsElem.h_[y] + alpha.asDiagonal() * (jumpsElem.e_[x] - ndotdE.asDiagonal() * norx);
 
 		}
 
diff --git a/src/evolution/HesthavenEvolution.h b/src/evolution/HesthavenEvolution.h
index fcf7d3a..1309c84 100644
--- a/src/evolution/HesthavenEvolution.h
+++ b/src/evolution/HesthavenEvolution.h
@@ -44,6 +44,7 @@ private:
 	std::vector<HesthavenElement> hestElemLinearStorage_;
 	std::vector<HesthavenCurvedElement> hestElemCurvedStorage_;
 	DynamicMatrix refLIFT_;
+	Eigen::VectorXd penalty_; // Upwinding factor of each face node, absorbing faces are always fully upwinded.
 	Connectivities connectivity_;
 	std::vector<Source::Position> positions_;
 
-- 
2.43.0


From 77098cea7d226eb027e294efb4c127bbf1614582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:34 +0000
Subject: [PATCH 28/45] fix: include conductive losses in the separate-operator
 formulation

---
 src/evolution/MaxwellEvolution.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/evolution/MaxwellEvolution.cpp b/src/evolution/MaxwellEvolution.cpp
index 3c5b7f9..f37148d 100644
--- a/src/evolution/MaxwellEvolution.cpp
+++ b/src/evolution/MaxwellEvolution.cpp
@@ -186,6 +186,19 @@ MaxwellEvolution::MaxwellEvolution(
 
 		MFNN_ = dgFactory.buildMaxwellTwoNormalOperator<ParBilinearForm>();
 
+		const auto eps{ pd_.model.buildEpsMuPiecewiseVector(E) };
+		const auto sigma{ pd_.model.buildSigmaPiecewiseVector() };
+		CND_.SetSize(fes_.GetNDofs());
+		CND_ = 0.0;
+		for (auto e{ 0 }; e < fes_.GetNE(); e++) {
+			Array<int> dofs;
+			fes_.GetElementDofs(e, dofs);
+			const auto att{ fes_.GetAttribute(e) };
+			for (const auto& v : dofs) {
+				CND_[v] = sigma[att - 1] / eps[att - 1];
+			}
+		}
+
 #ifdef SHOW_TIMER_INFORMATION
 		if (verbose && Mpi::WorldRank() == 0){
 			std::cout << "Elapsed time (ms): " << std::to_string(std::chrono::duration_cast<std::chrono::milliseconds>
@@ -270,6 +283,8 @@ void MaxwellEvolution::Mult(const Vector& in, Vector& out) const
 			MPB_[E]->AddMult(eFlux[x], eNew[x], -1.0);
 			
 		}
+
+		evalConductivity(CND_, eOld[x], eNew[x]);
 	}
 
 	for (const auto& source : srcmngr_.sources) {
-- 
2.43.0


From 91658b0e3409d7a8b33801cbeaf24a0f5064887c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:45:23 +0000
Subject: [PATCH 29/45] fix: scale the reference quadrilateral of the nodal
 formulation

The reference element was the unit square while its volume was taken as that
of the square from -1 to 1. Every term of the time derivative on
quadrilaterals came out four times too large.
---
 src/evolution/HesthavenEvolution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evolution/HesthavenEvolution.cpp b/src/evolution/HesthavenEvolution.cpp
index f729cee..c57db67 100644
--- a/src/evolution/HesthavenEvolution.cpp
+++ b/src/evolution/HesthavenEvolution.cpp
@@ -32,7 +32,7 @@ Mesh getRefMeshForGeomType(const Element::Type elType, const int dimension)
 		case Element::Type::TRIANGLE:
 			return Mesh::MakeCartesian2D(1, 1, elType, true, 2.0, 2.0);
 		case Element::Type::QUADRILATERAL:
-			return Mesh::MakeCartesian2D(1, 1, elType);
+			return Mesh::MakeCartesian2D(1, 1, elType, true, 2.0, 2.0);
 		default:
 			throw std::runtime_error("Incorrect Element Type for dimension 2 mesh.");
 		}
-- 
2.43.0


From 6cebb2a869e36ae97673410ed954a4707ea760c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:45:23 +0000
Subject: [PATCH 30/45] fix: refuse hexahedra in the nodal formulation

The reference tetrahedron was used for every three-dimensional element. On
hexahedra the matrices did not fit and the time derivative was garbage.
---
 src/evolution/HesthavenEvolution.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evolution/HesthavenEvolution.cpp b/src/evolution/HesthavenEvolution.cpp
index c57db67..2f217ef 100644
--- a/src/evolution/HesthavenEvolution.cpp
+++ b/src/evolution/HesthavenEvolution.cpp
@@ -37,6 +37,9 @@ Mesh getRefMeshForGeomType(const Element::Type elType, const int dimension)
 			throw std::runtime_error("Incorrect Element Type for dimension 2 mesh.");
 		}
 	case 3:
+		if (elType != Element::Type::TETRAHEDRON) {
+			throw std::runtime_error("Incorrect Element Type for dimension 3 mesh.");
+		}
 		return buildHesthavenRefTetrahedra();
 	default:
 		throw std::runtime_error("Hesthaven Evolution Operator only supports dimensions 2 or 3.");
-- 
2.43.0


From 818156926bd573d07fde9867fb00d3e567311921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:56:18 +0000
Subject: [PATCH 31/45] fix: do not take the stage vector as initial guess of
 the implicit solve

The integrators hand over a stage vector whose storage was never written. The
iterative solver used it as its starting point.
---
 src/evolution/GlobalEvolution.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/evolution/GlobalEvolution.cpp b/src/evolution/GlobalEvolution.cpp
index db84650..5109da4 100644
--- a/src/evolution/GlobalEvolution.cpp
+++ b/src/evolution/GlobalEvolution.cpp
@@ -1224,6 +1224,7 @@ void GlobalEvolution::ImplicitSolve(const double dt,
         gmres.SetMaxIter(400);
         gmres.SetKDim(60);
         gmres.SetPrintLevel(0);
+        gmres.iterative_mode = false; // k may come uninitialized, it is no initial guess.
 
         if (k.Size() != n) {
             k.SetSize(n); k.UseDevice(true); k = implicit_rhs_;
-- 
2.43.0


From ad9125bc4e08ba48a489b39eca068e94b8fc0141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:56:47 +0000
Subject: [PATCH 32/45] fix: solve implicit stages over all ranks together

The iterative solver was created without communicator, so each rank used its
own norms and iteration count while exchanging neighbour values with the
others. Implicit runs on several ranks hung or gave wrong fields.
---
 src/evolution/GlobalEvolution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evolution/GlobalEvolution.cpp b/src/evolution/GlobalEvolution.cpp
index 5109da4..5cdef8a 100644
--- a/src/evolution/GlobalEvolution.cpp
+++ b/src/evolution/GlobalEvolution.cpp
@@ -1218,7 +1218,7 @@ void GlobalEvolution::ImplicitSolve(const double dt,
             }
         } J(n, std::function<void(const mfem::Vector&, mfem::Vector&)>(applyA_parallel), dt);
 
-        mfem::GMRESSolver gmres;
+        mfem::GMRESSolver gmres(fes_.GetComm());
         gmres.SetOperator(J);
         gmres.SetRelTol(1e-8);
         gmres.SetMaxIter(400);
-- 
2.43.0


From d96e910fbf369162523dd746c63e1b7ab19c8ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:18:17 +0000
Subject: [PATCH 33/45] fix: decide the total-field side of 3-D surfaces by the
 plane of each face

---
 src/components/SubMesher.cpp | 36 ++++++++++--------------------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/src/components/SubMesher.cpp b/src/components/SubMesher.cpp
index 29ea54e..73f46f5 100644
--- a/src/components/SubMesher.cpp
+++ b/src/components/SubMesher.cpp
@@ -678,7 +678,7 @@ void TotalFieldScatteredFieldSubMesher::setIndividualTFSFAttributesForSubMeshing
 {
 	// Compute centroid of all TFSF boundary vertices.
 	// For a convex TFSF surface the centroid lies inside the TF region,
-	// so the element whose barycenter is closer to it is the TF element.
+	// so the element on its side of the face plane is the TF element.
 	// This is invariant to face-normal orientation and handles corner
 	// elements (adjacent to multiple TFSF faces) consistently.
 	Vector tfsf_center(3);
@@ -709,34 +709,18 @@ void TotalFieldScatteredFieldSubMesher::setIndividualTFSFAttributesForSubMeshing
 			auto fe_trans{ getFaceElementTransformation(m,be) };
 			m.GetElementFaces(fe_trans->Elem1No, el1_face, el1_ori);
 
-			// Determine TF/SF by centroid distance: closer to center = TF.
+			// Determine TF/SF by the plane of the face: the side the center lies on = TF.
+			// Distances to the center do not tell the sides apart on elongated surfaces.
 			Vector bary1 = getBarycenterOfElement(m, fe_trans->Elem1No);
-			double dist1_sq = 0.0;
+			Vector face_bary = getBarycenterOfFaceElement(m, m.GetBdrElementFaceIndex(be));
+			Vector face_normal = buildNormal3D(m, be);
+			double elem1_side = 0.0;
+			double center_side = 0.0;
 			for (int d = 0; d < 3; d++) {
-				double diff = bary1[d] - tfsf_center[d];
-				dist1_sq += diff * diff;
-			}
-
-			bool elem1_is_tf;
-			if (fe_trans->Elem2No >= 0) {
-				Vector bary2 = getBarycenterOfElement(m, fe_trans->Elem2No);
-				double dist2_sq = 0.0;
-				for (int d = 0; d < 3; d++) {
-					double diff = bary2[d] - tfsf_center[d];
-					dist2_sq += diff * diff;
-				}
-				elem1_is_tf = dist1_sq < dist2_sq;
-			}
-			else {
-				// Boundary face with no Elem2: compare element to face barycenter
-				Vector face_bary = getBarycenterOfFaceElement(m, m.GetBdrElementFaceIndex(be));
-				double face_dist_sq = 0.0;
-				for (int d = 0; d < 3; d++) {
-					double diff = face_bary[d] - tfsf_center[d];
-					face_dist_sq += diff * diff;
-				}
-				elem1_is_tf = dist1_sq < face_dist_sq;
+				elem1_side += (bary1[d] - face_bary[d]) * face_normal[d];
+				center_side += (tfsf_center[d] - face_bary[d]) * face_normal[d];
 			}
+			const bool elem1_is_tf = elem1_side * center_side > 1e-9 * elem1_side * elem1_side;
 
 			std::pair<FaceId, IsTF> set_v1;
 			for (int f = 0; f < el1_face.Size(); f++) {
-- 
2.43.0


From 19585bef49028ac8f39ab1245092ce442473cf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:18:17 +0000
Subject: [PATCH 34/45] fix: treat a single total-field point next to the first
 element as any other

---
 src/components/SubMesher.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/SubMesher.cpp b/src/components/SubMesher.cpp
index 73f46f5..e1e93b1 100644
--- a/src/components/SubMesher.cpp
+++ b/src/components/SubMesher.cpp
@@ -504,11 +504,11 @@ void TotalFieldScatteredFieldSubMesher::assignIndividualTFSFAttsOnePoint1D(Mesh&
 			auto be_trans{ getFaceElementTransformation(m, be) };
 			std::pair<FaceId, IsTF> set_e1;
 			std::pair<FaceId, IsTF> set_e2;
-			if (be_trans->Elem1No == 0) {
+			if (be_trans->Elem1No == 0 && be_trans->Elem2No < 0) {
 				set_e1 = std::make_pair(0, true);
 				set_e2 = std::make_pair(NotFound, false);
 			}
-			else if (be_trans->Elem1No == m.GetNE() - 1) {
+			else if (be_trans->Elem1No == m.GetNE() - 1 && be_trans->Elem2No < 0) {
 				set_e1 = std::make_pair(1, true);
 				set_e2 = std::make_pair(NotFound, false);
 			}
-- 
2.43.0


From b0110ecae582f8142e36ad635549aa00542c8c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:30:00 +0000
Subject: [PATCH 35/45] fix: choose a time step for piecewise constant fields
 in 2-D and 3-D

---
 src/solver/Solver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/Solver.cpp b/src/solver/Solver.cpp
index e3989a3..313e277 100644
--- a/src/solver/Solver.cpp
+++ b/src/solver/Solver.cpp
@@ -260,6 +260,10 @@ double getJacobiGQ_RMin(const int order) {
     mfem::GridFunction nodes(&fes);
     mesh.GetNodes(nodes);
 
+    if (nodes.Size() < 2) {
+        return 2.0;
+    }
+
     return std::abs(nodes(0) - nodes(1));
 }
 std::vector<Source::Position> getVerticesCoordsForElem(const mfem::ParFiniteElementSpace& fes, const ElementId& e, const std::vector<Source::Position>& positions)
-- 
2.43.0


From 23d094661d0c7045f918d851c9a9969168a32488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:33:46 +0000
Subject: [PATCH 36/45] fix: add up several incident waves once in the
 separate-operator formulation

---
 src/evolution/MaxwellEvolution.cpp | 3 +++
 src/solver/SourcesManager.cpp      | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/evolution/MaxwellEvolution.cpp b/src/evolution/MaxwellEvolution.cpp
index f37148d..ae7c9c9 100644
--- a/src/evolution/MaxwellEvolution.cpp
+++ b/src/evolution/MaxwellEvolution.cpp
@@ -340,6 +340,9 @@ void MaxwellEvolution::Mult(const Vector& in, Vector& out) const
 				eMap.TransferAdd(eTemp[x], eNew[x]);
 
 			}
+
+			// The evaluated function already adds up all the sources.
+			break;
 		}
 	}
 }
diff --git a/src/solver/SourcesManager.cpp b/src/solver/SourcesManager.cpp
index 77bf290..1b53208 100644
--- a/src/solver/SourcesManager.cpp
+++ b/src/solver/SourcesManager.cpp
@@ -65,7 +65,9 @@ FieldGridFuncs SourcesManager::evalTimeVarField(const Time time, FiniteElementSp
                 };
                 FunctionCoefficient func(f);
                 func.SetTime(time);
-                cached_tfsf_fields_[ft][d].ProjectCoefficient(func);
+                GridFunction source_field(fes);
+                source_field.ProjectCoefficient(func);
+                cached_tfsf_fields_[ft][d] += source_field;
             }
         }
     }
-- 
2.43.0


From e5a94ba4c4164b0bdff3108a0888a17d3e1ebeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:59:39 +0000
Subject: [PATCH 37/45] fix: advance thin panels however short the interval

SGBCWrapper::solve ignored every interval below 1e-9. Panels with
nanometre-sized cells use sub-steps shorter than that and so never
advanced at all. Only an empty interval is skipped now.
---
 src/solver/SolverExtension.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/SolverExtension.cpp b/src/solver/SolverExtension.cpp
index f02751d..59d5eee 100644
--- a/src/solver/SolverExtension.cpp
+++ b/src/solver/SolverExtension.cpp
@@ -406,7 +406,7 @@ void SGBCWrapper::fillGlobalSGBCVec(const SGBCState& context, mfem::Vector& vec,
 
 void SGBCWrapper::solve(const Time t, const Time dt)
 {
-    if (std::abs(dt) < 1e-9){
+    if (dt == 0.0){
         return;
     }
 
-- 
2.43.0


From af8a87255a377be232be08b59b8262b18c9034fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:51:55 +0000
Subject: [PATCH 38/45] fix: couple each cell with the panel surfaces facing it

Panel fluxes were gathered in two passes over shared node slots. A cell
that lies behind one panel and in front of another received the flux of
the wrong pass, and where two panel faces meet in a node one of them
overwrote the values of the other. The fluxes are now gathered cell by
cell.
---
 src/evolution/GlobalEvolution.cpp | 155 +++++++-----------------------
 src/evolution/GlobalEvolution.h   |  14 ++-
 2 files changed, 44 insertions(+), 125 deletions(-)

diff --git a/src/evolution/GlobalEvolution.cpp b/src/evolution/GlobalEvolution.cpp
index 5cdef8a..ed915ff 100644
--- a/src/evolution/GlobalEvolution.cpp
+++ b/src/evolution/GlobalEvolution.cpp
@@ -276,35 +276,17 @@ GlobalEvolution::GlobalEvolution(
 #endif
     }
 
-    // Pre-compute unique element DOF sets for SGBC flux gathering.
+    // Pre-compute, per element, the SGBC faces it touches, for SGBC flux gathering.
     // Instead of copying only face DOFs from sgbcOut_ to out, we need ALL DOFs
     // of elements touching SGBC faces, because the DG face integral distributes
     // flux to all test functions in the element (not just the face node).
-    {
-        std::unordered_set<int> elem1_set, elem2_set;
-        for (const auto& [tag, states] : sgbc_states_) {
-            for (const auto& s : states) {
-                elem1_set.insert(s.element_pair.first);
-                if (s.element_pair.second != -1) {
-                    elem2_set.insert(s.element_pair.second);
-                }
+    for (const auto& [tag, states] : sgbc_states_) {
+        for (size_t i = 0; i < states.size(); ++i) {
+            sgbc_elem_sides_[states[i].element_pair.first].push_back({tag, i, false});
+            if (states[i].element_pair.second != -1) {
+                sgbc_elem_sides_[states[i].element_pair.second].push_back({tag, i, true});
             }
         }
-        const mfem::Table& elem_dof_table = fes_.GetElementToDofTable();
-        auto collectDofs = [&](const std::unordered_set<int>& elems, std::vector<int>& out_dofs) {
-            std::unordered_set<int> dof_set;
-            for (int el : elems) {
-                const int* dofs = elem_dof_table.GetRow(el);
-                const int n = elem_dof_table.RowSize(el);
-                for (int i = 0; i < n; ++i) {
-                    dof_set.insert(dofs[i]);
-                }
-            }
-            out_dofs.assign(dof_set.begin(), dof_set.end());
-            std::sort(out_dofs.begin(), out_dofs.end());
-        };
-        collectDofs(elem1_set, sgbc_elem1_dofs_);
-        collectDofs(elem2_set, sgbc_elem2_dofs_);
     }
 
     globalOperator_ = std::make_unique<mfem::SparseMatrix>(
@@ -825,7 +807,7 @@ void GlobalEvolution::Mult(const mfem::Vector& in, mfem::Vector& out) const
     timerTFSF.Stop();
 #endif
 
-    // 6) SGBC flux injection (two-pass face coupling)
+    // 6) SGBC flux injection (element by element)
     //    Sub-solve was done in step 1; here we only inject interface values as flux.
     //    Skip entirely when all SGBC faces are quiescent.
     if (SGBCOperator_ && !sgbcWrappers_.empty() && !sgbc_all_quiescent){
@@ -880,34 +862,30 @@ void GlobalEvolution::Mult(const mfem::Vector& in, mfem::Vector& out) const
             }
         };
 
-        for (auto& [tag, states] : sgbc_states_) {
-            auto it = sgbc_wrapper_map_.find(tag);
-            if (it == sgbc_wrapper_map_.end()) continue;
-            auto w = it->second;
-            int local_size = w->getLocalFieldSize();
-            int idx_left = w->getLeftInterfaceIndex();
-            const auto& left_info = w->getProperties().sgbc_bdr_info.first;
-            const auto left_bdr = left_info.isOn ? left_info.bdrCond : BdrCond::SGBC;
-
-            for (const auto& state : states) {
-                int gl = state.global_pair.first;
-                int gr = state.global_pair.second;
-                // Elem1 slot: global field value (u_L) — already in global frame
-                copyGlobalSlot(gl, gl);
-                // Elem2 slot: what Elem1 sees from the slab's left side
-                if (gr != -1) {
-                    fillBCSlot(left_bdr, gl, gr, state.rot,
-                               state.fields_state.GetData(), local_size, idx_left);
+        const double* sv = multWorkVec_.HostRead();
+        double* op = out.HostReadWrite();
+        const mfem::Table& elem_dof = fes_.GetElementToDofTable();
+        for (const auto& [el, sides] : sgbc_elem_sides_) {
+            // Input: the element's own field, and across each panel the surface facing it.
+            for (const auto& side : sides) {
+                const auto& state = sgbc_states_.at(side.tag)[side.state_index];
+                auto w = sgbc_wrapper_map_.at(side.tag);
+                const int own   = side.is_right ? state.global_pair.second : state.global_pair.first;
+                const int other = side.is_right ? state.global_pair.first  : state.global_pair.second;
+                copyGlobalSlot(own, own);
+                if (other != -1) {
+                    const auto& bdr_info = w->getProperties().sgbc_bdr_info;
+                    const auto& info = side.is_right ? bdr_info.second : bdr_info.first;
+                    fillBCSlot(info.isOn ? info.bdrCond : BdrCond::SGBC, own, other, state.rot,
+                               state.fields_state.GetData(), w->getLocalFieldSize(),
+                               side.is_right ? w->getRightInterfaceIndex() : w->getLeftInterfaceIndex());
                 }
             }
-        }
-        // Targeted SpMV: only compute rows for Elem1 DOFs, add directly to out.
-        {
-            const double* sv = multWorkVec_.HostRead();
-            double* op = out.HostReadWrite();
+            // Targeted SpMV: only compute rows for this element's DOFs, add directly to out.
+            const int* dofs = elem_dof.GetRow(el);
             for (int comp = 0; comp < 6; ++comp) {
-                for (int dof : sgbc_elem1_dofs_) {
-                    const int row = comp * ndofs + dof;
+                for (int i = 0; i < elem_dof.RowSize(el); ++i) {
+                    const int row = comp * ndofs + dofs[i];
                     const int nnz = SGBCOperator_->RowSize(row);
                     const int* cols = SGBCOperator_->GetRowColumns(row);
                     const double* vals = SGBCOperator_->GetRowEntries(row);
@@ -918,77 +896,14 @@ void GlobalEvolution::Mult(const mfem::Vector& in, mfem::Vector& out) const
                     op[row] += sum;
                 }
             }
-        }
-
-        // Clear only the entries that were written in Pass 1
-        for (auto& [tag, states] : sgbc_states_) {
-            for (const auto& state : states) {
-                int gl = state.global_pair.first;
-                int gr = state.global_pair.second;
-                for (int d = X; d <= Z; ++d) {
-                    multWorkVec_[d * blockSize + gl] = 0.0;
-                    multWorkVec_[(3 + d) * blockSize + gl] = 0.0;
-                    if (gr != -1) {
-                        multWorkVec_[d * blockSize + gr] = 0.0;
-                        multWorkVec_[(3 + d) * blockSize + gr] = 0.0;
-                    }
-                }
-            }
-        }
-
-        // --- Pass 2: Elem2 (R) flux ---
-        // Input: u_slab_right at gl (Elem1), u_R at gr (Elem2)
-        // Keep only Elem2 DOF contributions from the result
-        for (auto& [tag, states] : sgbc_states_) {
-            auto it = sgbc_wrapper_map_.find(tag);
-            if (it == sgbc_wrapper_map_.end()) continue;
-            auto w = it->second;
-            int local_size = w->getLocalFieldSize();
-            int idx_right = w->getRightInterfaceIndex();
-            const auto& right_info = w->getProperties().sgbc_bdr_info.second;
-            const auto right_bdr = right_info.isOn ? right_info.bdrCond : BdrCond::SGBC;
-
-            for (const auto& state : states) {
-                int gl = state.global_pair.first;
-                int gr = state.global_pair.second;
-                if (gr == -1) continue;
-
-                fillBCSlot(right_bdr, gr, gl, state.rot,
-                           state.fields_state.GetData(), local_size, idx_right);
-                // Elem2 slot: global field value (u_R) — already in global frame
-                copyGlobalSlot(gr, gr);
-            }
-        }
-        // Targeted SpMV: only compute rows for Elem2 DOFs, add directly to out.
-        {
-            const double* sv = multWorkVec_.HostRead();
-            double* op = out.HostReadWrite();
-            for (int comp = 0; comp < 6; ++comp) {
-                for (int dof : sgbc_elem2_dofs_) {
-                    const int row = comp * ndofs + dof;
-                    const int nnz = SGBCOperator_->RowSize(row);
-                    const int* cols = SGBCOperator_->GetRowColumns(row);
-                    const double* vals = SGBCOperator_->GetRowEntries(row);
-                    double sum = 0.0;
-                    for (int j = 0; j < nnz; ++j) {
-                        sum += vals[j] * sv[cols[j]];
+            // Clear only the entries that were written, so multWorkVec_ stays zeroed.
+            for (const auto& side : sides) {
+                const auto& pair = sgbc_states_.at(side.tag)[side.state_index].global_pair;
+                for (int slot : {pair.first, pair.second}) {
+                    if (slot == -1) continue;
+                    for (int c = 0; c < 6; ++c) {
+                        multWorkVec_[c * blockSize + slot] = 0.0;
                     }
-                    op[row] += sum;
-                }
-            }
-        }
-
-        // Clear entries written in Pass 2 so multWorkVec_ stays zeroed for next call
-        for (auto& [tag, states] : sgbc_states_) {
-            for (const auto& state : states) {
-                int gl = state.global_pair.first;
-                int gr = state.global_pair.second;
-                if (gr == -1) continue;
-                for (int d = X; d <= Z; ++d) {
-                    multWorkVec_[d * blockSize + gl] = 0.0;
-                    multWorkVec_[(3 + d) * blockSize + gl] = 0.0;
-                    multWorkVec_[d * blockSize + gr] = 0.0;
-                    multWorkVec_[(3 + d) * blockSize + gr] = 0.0;
                 }
             }
         }
diff --git a/src/evolution/GlobalEvolution.h b/src/evolution/GlobalEvolution.h
index 9113e79..bf3dd31 100644
--- a/src/evolution/GlobalEvolution.h
+++ b/src/evolution/GlobalEvolution.h
@@ -65,11 +65,15 @@ private:
 
     std::map<int, int> sgbc_coupling_map_;
 
-    // Pre-computed element DOF ranges for SGBC flux gathering.
-    // Maps element ID -> list of DOF indices belonging to that element.
-    // Separated by pass: elem1 DOFs (pass 1) and elem2 DOFs (pass 2).
-    std::vector<int> sgbc_elem1_dofs_;  // All DOFs of unique Elem1s touching SGBC faces
-    std::vector<int> sgbc_elem2_dofs_;  // All DOFs of unique Elem2s touching SGBC faces
+    // Panel faces touched by each element, seen from that element. Fluxes are gathered
+    // element by element because an element may lie on either side of several panels,
+    // and its nodes be shared by several panel faces.
+    struct SGBCSide {
+        GeomTag tag;
+        size_t state_index;
+        bool is_right;
+    };
+    std::map<ElementId, std::vector<SGBCSide>> sgbc_elem_sides_;
 
     // Cached indices of sources that are TotalField (avoids dynamic_cast per Mult)
     std::vector<int> tfsfSourceIndices_;
-- 
2.43.0


From c64bcb024c386b4e16bd51ba64f874d1d25d9b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:25 +0000
Subject: [PATCH 39/45] fix: find the nodes of one-dimensional panels from the
 mesh

The nodes on the two sides of a panel in a one-dimensional mesh were
computed as if the elements were numbered from left to right. With any
other numbering the panel was coupled to unrelated nodes.
---
 src/evolution/GlobalEvolution.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/evolution/GlobalEvolution.cpp b/src/evolution/GlobalEvolution.cpp
index ed915ff..b69dea7 100644
--- a/src/evolution/GlobalEvolution.cpp
+++ b/src/evolution/GlobalEvolution.cpp
@@ -77,9 +77,19 @@ GlobalEvolution::GlobalEvolution(
                 if (is_interior) {
                     if (mesh->Dimension() == 1){
                         std::array<double,9> id_rot = {1,0,0, 0,1,0, 0,0,1};
+                        auto trans = const_cast<mfem::FaceElementTransformations*>(faceTrans);
+                        mfem::IntegrationPoint facePoint, point1, point2;
+                        facePoint.Set1w(0.0, 1.0);
+                        trans->Loc1.Transform(facePoint, point1);
+                        trans->Loc2.Transform(facePoint, point2);
+                        const int dof1 = trans->Elem1No * (fec->GetOrder() + 1) + (point1.x > 0.5 ? fec->GetOrder() : 0);
+                        const int dof2 = trans->Elem2No * (fec->GetOrder() + 1) + (point2.x > 0.5 ? fec->GetOrder() : 0);
+                        // pair.first = left side, whichever element has the lower number.
+                        mfem::Vector center1, center2;
+                        mesh->GetElementCenter(trans->Elem1No, center1);
+                        mesh->GetElementCenter(trans->Elem2No, center2);
                         raw_pairs[bdr_attr].push_back({
-                            NodePair(faceTrans->Elem1No * (fec->GetOrder() + 1) + fec->GetOrder(),
-                                     faceTrans->Elem1No * (fec->GetOrder() + 1) + fec->GetOrder() + 1),
+                            center1[0] < center2[0] ? NodePair(dof1, dof2) : NodePair(dof2, dof1),
                             id_rot
                         });
                     } else {
-- 
2.43.0


From 51b64620d7de21f809713404ba347af81c27115d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:25 +0000
Subject: [PATCH 40/45] fix: clear earlier near-field and state recordings when
 a run starts

Records of an earlier, longer run of the same case stayed next to those
of the new run and were taken for part of it. Near-field probes also
created a stray directory outside of the case's own output.
---
 src/solver/ProbesManager.cpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/solver/ProbesManager.cpp b/src/solver/ProbesManager.cpp
index 9d8d1a2..c769007 100644
--- a/src/solver/ProbesManager.cpp
+++ b/src/solver/ProbesManager.cpp
@@ -289,16 +289,6 @@ DataCollection ProbesManager::buildNearFieldDataCollectionInfo(
 
     DataCollection res{ p.name, nearFieldReqs_.at(&p)->getSubMesh() };
     
-    std::string parent_path = "Exports/" + getRunModeTag() + "/" + caseName_ + "/NearToFarFieldProbes/" + p.name;
-    if (isNodeRoot()) {
-        std::filesystem::create_directories(parent_path);
-    }
-    MPI_Barrier(MPI_COMM_WORLD);
-
-    std::string path = parent_path + "/rank" + std::to_string(Mpi::WorldRank());
-    std::filesystem::create_directories(path); 
-    res.SetPrefixPath(path);
-    
     res.RegisterField("Ex.gf", &nearFieldReqs_.at(&p)->getConstField(E, X));
     res.RegisterField("Ey.gf", &nearFieldReqs_.at(&p)->getConstField(E, Y));
     res.RegisterField("Ez.gf", &nearFieldReqs_.at(&p)->getConstField(E, Z));
@@ -434,7 +424,15 @@ void ProbesManager::updateProbe(NearFieldProbe& p, Time time)
     auto it{ nearFieldProbesCollection_.find(&p) };
     assert(it != nearFieldProbesCollection_.end());
     auto& dc{ it->second };
-    dc.SetPrefixPath("Exports/" + getRunModeTag() + "/" + caseName_ + "/NearToFarFieldProbes/" + p.name + "/rank" + std::to_string(Mpi::WorldRank()));
+    const std::string parent_path = "Exports/" + getRunModeTag() + "/" + caseName_ + "/NearToFarFieldProbes/" + p.name;
+    if (cycle_ == 0) {
+        if (isNodeRoot()) {
+            std::filesystem::remove_all(parent_path);
+            std::filesystem::create_directories(parent_path);
+        }
+        MPI_Barrier(MPI_COMM_WORLD);
+    }
+    dc.SetPrefixPath(parent_path + "/rank" + std::to_string(Mpi::WorldRank()));
 
     nearFieldReqs_.at(&p)->updateFields();
 
@@ -623,6 +621,15 @@ void ProbesManager::recalculateExportSteps(double dt)
 void ProbesManager::updateProbe(MORStateProbe& p, Time time)
 {
     if (p.saves <= 0) return;
+
+    const std::string export_dir = "Exports/" + getRunModeTag() + "/" + caseName_ + "/MORStateProbes/" + p.name;
+    if (cycle_ == 0) {
+        if (isNodeRoot()) {
+            std::filesystem::remove_all(export_dir);
+        }
+        MPI_Barrier(MPI_COMM_WORLD);
+    }
+
     if (time < p.record_time_start - 1e-12) return;
     if (time > p.record_time_final + 1e-12) return;
 
@@ -634,7 +641,7 @@ void ProbesManager::updateProbe(MORStateProbe& p, Time time)
             : 0.0;
         ctx.next_save_time = p.record_time_start;
         ctx.save_count = 0;
-        ctx.export_dir = "Exports/" + getRunModeTag() + "/" + caseName_ + "/MORStateProbes/" + p.name;
+        ctx.export_dir = export_dir;
 
         if (isNodeRoot()) {
             std::filesystem::create_directories(ctx.export_dir);
-- 
2.43.0


From 5ea8ac2ea25f6fec003f3cc85ce447e2730cc32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:05:31 +0000
Subject: [PATCH 41/45] fix: keep the points of a one-dimensional total-field
 region on one rank

The side of each point follows from its order among the points a rank
holds. A rank holding only the downstream point took it for the upstream
one and excited the wave on the wrong side.
---
 src/driver/driver.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index a1606f6..2904575 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -215,6 +215,15 @@ void applyPairwiseConstraintsPartitioning(mfem::Mesh& mesh,
         unite(a, b);
     }
 
+    // In 1-D the side of each total-field point follows from its order among
+    // those found, hence all of them must be on the same rank.
+    if (mesh.Dimension() == 1) {
+        const auto tfsf_pairs = gatherConstraintPairs(mesh, tfsf_tags, mfem::Array<int>());
+        for (const auto& pr : tfsf_pairs) {
+            unite(tfsf_pairs.front().first, pr.first);
+        }
+    }
+
     // Collect connected components.
     std::unordered_map<int, std::vector<int>> components;
     for (const auto& pr : pairs) {
-- 
2.43.0


From acb46502ae05e66530a3d0cb8994ecbf2b7e718e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:55:33 +0000
Subject: [PATCH 42/45] fix: integrate derivatives exactly on curved
 quadrilaterals and hexahedra

The quadrature order chosen for curved meshes counted the geometry's degree as
for simplices. On tensor-product elements each coordinate keeps its full degree,
so the rule was too short and the energy of a closed domain drifted.
---
 src/components/DGOperatorFactory.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/components/DGOperatorFactory.h b/src/components/DGOperatorFactory.h
index 0027c33..f9909da 100644
--- a/src/components/DGOperatorFactory.h
+++ b/src/components/DGOperatorFactory.h
@@ -450,9 +450,11 @@ namespace maxwell
 			if (meshOrder > 1) {
 				int p = fes_.FEColl()->GetOrder();
 				int dim = fes_.GetMesh()->Dimension();
-				int adjDeg = (dim - 1) * (meshOrder - 1);
-				int totalOrder = 2 * p - 1 + adjDeg;
 				auto geomType = fes_.GetMesh()->GetElementGeometry(0);
+				// On tensor-product elements each coordinate keeps its full degree.
+				const bool isTensor = geomType == Geometry::SQUARE || geomType == Geometry::CUBE;
+				int adjDeg = (dim - 1) * (isTensor ? meshOrder : meshOrder - 1);
+				int totalOrder = 2 * p - 1 + adjDeg;
 				integ->SetIntRule(&IntRules.Get(geomType, totalOrder));
 			}
 		}
-- 
2.43.0


From 266ce89ba62a5ef5fd1a7d71a254ad55194bcc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:57:30 +0000
Subject: [PATCH 43/45] fix: tell curved elements from straight ones relative
 to their size

The nodal formulation compared node positions with an absolute tolerance, so
curved elements of meshes in small units were treated as straight.
---
 src/evolution/HesthavenEvolution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evolution/HesthavenEvolution.cpp b/src/evolution/HesthavenEvolution.cpp
index 2f217ef..94a9d2a 100644
--- a/src/evolution/HesthavenEvolution.cpp
+++ b/src/evolution/HesthavenEvolution.cpp
@@ -217,9 +217,9 @@ std::pair<Array<ElementId>,std::map<ElementId,Array<NodeId>>> initCurvedAndLinea
 	const auto& pos_cur = curved_pos;
 	const auto pos_lin = buildDoFPositions(fes_p1);
 
-	double tol{ 1e-5 };
 	std::pair<Array<ElementId>, std::map<ElementId, Array<NodeId>>> res;
 	for (int e = 0; e < mesh_p1.GetNE(); e++) {
+		const double tol{ 1e-5 * mesh_p1.GetElementSize(e) };
 		Array<int> elemdofs_p1, elemdofs_p2;
 		fes_p1.GetElementDofs(e, elemdofs_p1);
 		fes   .GetElementDofs(e, elemdofs_p2);
-- 
2.43.0


From 919eb32bf6efc43a3a3a7bbeaa3d2393274e3fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:59:30 +0000
Subject: [PATCH 44/45] fix: recognise the end of a run relative to its length

Probes took every step within 1e-8 of the final time for the last one, so runs
with shorter steps were recorded more often than asked for.
---
 src/components/RCSSurfaceExporter.cpp |  2 +-
 src/solver/ProbesManager.cpp          | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/components/RCSSurfaceExporter.cpp b/src/components/RCSSurfaceExporter.cpp
index fc86eb9..2196394 100644
--- a/src/components/RCSSurfaceExporter.cpp
+++ b/src/components/RCSSurfaceExporter.cpp
@@ -154,7 +154,7 @@ void RCSSurfaceExporter::writeSnapshot(double time)
 
 void RCSSurfaceExporter::write(double time, int cycle, double finalTime)
 {
-    bool atEnd = std::abs(time - finalTime) < 1e-8;
+    bool atEnd = std::abs(time - finalTime) <= 1e-8 * finalTime;
     if (!atEnd && cycle % expSteps_ != 0) {
         return;
     }
diff --git a/src/solver/ProbesManager.cpp b/src/solver/ProbesManager.cpp
index c769007..ad810fe 100644
--- a/src/solver/ProbesManager.cpp
+++ b/src/solver/ProbesManager.cpp
@@ -308,7 +308,7 @@ DomainSnapshotDataCollection ProbesManager::buildDomainSnapshotDataCollection(co
 
 void ProbesManager::updateProbe(ExporterProbe& p, Time time)
 {
-    if (std::abs(time - finalTime_) >= 1e-8){
+    if (std::abs(time - finalTime_) > 1e-8 * finalTime_){
         if (cycle_ % p.visSteps != 0) {
             return;
         }
@@ -334,7 +334,7 @@ void ProbesManager::updateProbe(ExporterProbe& p, Time time)
 
 void ProbesManager::updateProbe(FieldProbe& p, Time time)
 {
-    if (std::abs(time - finalTime_) >= 1e-8) {
+    if (std::abs(time - finalTime_) > 1e-8 * finalTime_) {
         if (cycle_ % p.getVisSteps() != 0) {
             return;
         }
@@ -365,7 +365,7 @@ void ProbesManager::updateProbe(FieldProbe& p, Time time)
 
 void ProbesManager::updateProbe(PointProbe& p, Time time)
 {
-    if (std::abs(time - finalTime_) >= 1e-8) {
+    if (std::abs(time - finalTime_) > 1e-8 * finalTime_) {
         if (cycle_ % p.getVisSteps() != 0) {
             return;
         }
@@ -415,7 +415,7 @@ Fields<ParFiniteElementSpace, ParGridFunction> buildFieldsForProbe(const Fields<
 
 void ProbesManager::updateProbe(NearFieldProbe& p, Time time)
 {
-    if (std::abs(time - finalTime_) >= 1e-8) {
+    if (std::abs(time - finalTime_) > 1e-8 * finalTime_) {
         if (cycle_ % p.expSteps != 0) {
             return;
         }
@@ -455,7 +455,7 @@ void ProbesManager::updateProbe(NearFieldProbe& p, Time time)
 
 void ProbesManager::updateProbe(DomainSnapshotProbe& p, Time time)
 {
-    if (std::abs(time - finalTime_) >= 1e-8) {
+    if (std::abs(time - finalTime_) > 1e-8 * finalTime_) {
         if (cycle_ % p.expSteps != 0) {
             return;
         }
-- 
2.43.0


From fcc1f6028f379515f3c8df6deb80f5a55f35bcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:18:16 +0000
Subject: [PATCH 45/45] fix: allow ranks without a part of a near-field surface

A parallel run with a near-field probe aborted as soon as one rank held
no element next to the recorded surface. Such ranks have nothing to
record, as already handled for surface probes.
---
 src/solver/ProbesManager.cpp | 39 +++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/solver/ProbesManager.cpp b/src/solver/ProbesManager.cpp
index ad810fe..54cac99 100644
--- a/src/solver/ProbesManager.cpp
+++ b/src/solver/ProbesManager.cpp
@@ -93,6 +93,21 @@ ParaViewDataCollection ProbesManager::buildParaviewDataCollectionInfo(const Expo
     return pd;
 }
 
+// Ranks that hold no part of a surface present on other ranks have nothing to record.
+static bool surfaceIsOnlyOnOtherRanks(const std::vector<int>& tags, const ParFiniteElementSpace& fes)
+{
+    const auto* mesh = fes.GetMesh();
+    int onThisRank = 0, onAnyRank = 0;
+    for (int be = 0; be < mesh->GetNBE(); ++be) {
+        if (std::find(tags.begin(), tags.end(), mesh->GetBdrAttribute(be)) != tags.end()) {
+            onThisRank = 1;
+            break;
+        }
+    }
+    MPI_Allreduce(&onThisRank, &onAnyRank, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
+    return !onThisRank && onAnyRank;
+}
+
 ProbesManager::ProbesManager(Probes pIn, mfem::ParFiniteElementSpace& fes, Fields<ParFiniteElementSpace, ParGridFunction>& fields, const SolverOptions& opts) :
     probes{ pIn },
     fes_{ fes }
@@ -115,6 +130,9 @@ ProbesManager::ProbesManager(Probes pIn, mfem::ParFiniteElementSpace& fes, Field
         {
             throw std::runtime_error("The FiniteElementCollection in the FiniteElementSpace is not DG.");
         }
+        if (surfaceIsOnlyOnOtherRanks(p.tags, fes_)) {
+            continue;
+        }
         nearFieldReqs_.emplace(&p, std::make_unique<NearFieldReqs>(NearFieldReqs(p, dgfec, fes_, fields)));
         nearFieldProbesCollection_.emplace(&p, buildNearFieldDataCollectionInfo(p, fields));
     }
@@ -421,9 +439,6 @@ void ProbesManager::updateProbe(NearFieldProbe& p, Time time)
         }
     }
 
-    auto it{ nearFieldProbesCollection_.find(&p) };
-    assert(it != nearFieldProbesCollection_.end());
-    auto& dc{ it->second };
     const std::string parent_path = "Exports/" + getRunModeTag() + "/" + caseName_ + "/NearToFarFieldProbes/" + p.name;
     if (cycle_ == 0) {
         if (isNodeRoot()) {
@@ -432,6 +447,12 @@ void ProbesManager::updateProbe(NearFieldProbe& p, Time time)
         }
         MPI_Barrier(MPI_COMM_WORLD);
     }
+
+    auto it{ nearFieldProbesCollection_.find(&p) };
+    if (it == nearFieldProbesCollection_.end()) {
+        return;
+    }
+    auto& dc{ it->second };
     dc.SetPrefixPath(parent_path + "/rank" + std::to_string(Mpi::WorldRank()));
 
     nearFieldReqs_.at(&p)->updateFields();
@@ -569,17 +590,7 @@ void ProbesManager::initRCSSurfaceExporters()
         if (!dgfec) {
             throw std::runtime_error("The FiniteElementCollection in the FiniteElementSpace is not DG.");
         }
-        // Ranks that hold no part of a surface present on other ranks have nothing to record.
-        const auto* mesh = fes_.GetMesh();
-        int onThisRank = 0, onAnyRank = 0;
-        for (int be = 0; be < mesh->GetNBE(); ++be) {
-            if (std::find(p.tags.begin(), p.tags.end(), mesh->GetBdrAttribute(be)) != p.tags.end()) {
-                onThisRank = 1;
-                break;
-            }
-        }
-        MPI_Allreduce(&onThisRank, &onAnyRank, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
-        if (!onThisRank && onAnyRank) {
+        if (surfaceIsOnlyOnOtherRanks(p.tags, fes_)) {
             continue;
         }
         rcsSurfaceExporters_.emplace(&p,
-- 
2.43.0

