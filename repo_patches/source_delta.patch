From bf6848f018193c98e0683547f327e9ee99aeda7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 01/69] fix: mat::addRow/addColumn accept any negative position
 and read past the storage of 0-column/0-row matrices

---
 src/LinearAlgebra/matrix.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/LinearAlgebra/matrix.cpp b/src/LinearAlgebra/matrix.cpp
index 72446ac..9c3fb4d 100644
--- a/src/LinearAlgebra/matrix.cpp
+++ b/src/LinearAlgebra/matrix.cpp
@@ -187,16 +187,17 @@ mat mat::submat(unsigned int startRow, unsigned int endRow, unsigned int startCo
 
 void mat::addRow(const vec& rowVec, int position) {
 
+	if(isEmpty()){
+		nrows = 0;
+		ncols = rowVec.getSize();
+	}
+
 	if(position == -1){
 
 		position = nrows;
 	}
 
-	if(isEmpty()){
-		ncols = rowVec.getSize();
-	}
-
-	if (position > static_cast<int>(nrows)) {
+	if (position < 0 || position > static_cast<int>(nrows)) {
 		throw std::invalid_argument("Position out of range.");
 	}
 	if (rowVec.getSize() != ncols) {
@@ -230,17 +231,17 @@ void mat::addRow(const vec& rowVec, int position) {
 
 void mat::addColumn(const vec& colVec, int position) {
 
-	if(position == -1){
-
-		position = ncols;
-	}
-
 	if(isEmpty()){
+		ncols = 0;
 		nrows = colVec.getSize();
 	}
 
+	if(position == -1){
+
+		position = ncols;
+	}
 
-	if (position > static_cast<int>(ncols)) {
+	if (position < 0 || position > static_cast<int>(ncols)) {
 		throw std::invalid_argument("Position out of range.");
 	}
 	if (colVec.getSize() != nrows) {
-- 
2.43.0


From 363fcd85820bf41f1cdb3ed99390d8c08f8c799e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 02/69] fix: mat::deleteRow on an empty matrix or with a
 negative index corrupts the matrix

---
 src/LinearAlgebra/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinearAlgebra/matrix.cpp b/src/LinearAlgebra/matrix.cpp
index 9c3fb4d..33500ad 100644
--- a/src/LinearAlgebra/matrix.cpp
+++ b/src/LinearAlgebra/matrix.cpp
@@ -283,7 +283,7 @@ void mat::deleteRow(int rowIndex) {
 		rowIndex = nrows-1;
 	}
 
-	if (rowIndex >= static_cast<int>(nrows)) {
+	if (rowIndex < 0 || rowIndex >= static_cast<int>(nrows)) {
 		throw std::out_of_range("Row index out of range.");
 	}
 
-- 
2.43.0


From 5a747cc4dcd73b2d442c1d01f5e48673659aad99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 03/69] fix: mat::eye leaves off-diagonal entries of a non-zero
 matrix in place

---
 src/LinearAlgebra/matrix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LinearAlgebra/matrix.cpp b/src/LinearAlgebra/matrix.cpp
index 33500ad..f2fe74a 100644
--- a/src/LinearAlgebra/matrix.cpp
+++ b/src/LinearAlgebra/matrix.cpp
@@ -547,6 +547,7 @@ void mat::eye(){
 	if (nrows  != ncols ) {
 		throw std::invalid_argument("mat::eye: Matrix must be square.");
 	}
+	fill(0.0);
 	for (unsigned int row = 0; row < nrows; ++row) {
 		matrix[row * nrows + row] = 1.0;
 
-- 
2.43.0


From 75d9811441aad74b91749c816df8c5afc2ef7da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 04/69] fix: mat::choleskyNaive reports success with NaN
 factors for singular matrices

---
 src/LinearAlgebra/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinearAlgebra/matrix.cpp b/src/LinearAlgebra/matrix.cpp
index f2fe74a..9815d17 100644
--- a/src/LinearAlgebra/matrix.cpp
+++ b/src/LinearAlgebra/matrix.cpp
@@ -1169,7 +1169,7 @@ mat mat::choleskyNaive(int& ret) const {
 
 			if (i == j) {
 				double fac = matrix[i + i * n] - sum;
-				if(fac < 0) {
+				if(!(fac > 0)) {
 					ret = -1;
 					return L;
 				}
-- 
2.43.0


From cde32a1e8eef5703c5c216064031d7b655531082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 05/69] fix: LU of a singular matrix returns a matrix with
 dimensions but no storage (naive) or leaks its storage (BLAS)

---
 src/LinearAlgebra/matrix.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LinearAlgebra/matrix.cpp b/src/LinearAlgebra/matrix.cpp
index 9815d17..0876921 100644
--- a/src/LinearAlgebra/matrix.cpp
+++ b/src/LinearAlgebra/matrix.cpp
@@ -1472,6 +1472,7 @@ mat mat::luOpenBlas(int* pivot,int &return_value) const{
 	if (info < 0) {
 		throw std::runtime_error("Argument " + std::to_string(-info) + " had an illegal value.");
 	} else if (info > 0) {
+		delete[] LUMatrix;
 		return_value = -1;
 		mat emptyMat;
 		return emptyMat;
@@ -1532,6 +1533,9 @@ mat mat::luNaive(int *pivot, int & return_value) const {
 
 
 	mat result;
+	if (LU == nullptr) {
+		return result;
+	}
 	result.matrix = LU;
 	result.ncols = ncols;
 	result.nrows = nrows;
-- 
2.43.0


From c2086e3fa68453b7deccd321cc9ddc0f430d7a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 06/69] fix: CholeskySystem/LUSystem::setDimension keeps the
 factorization flag of the discarded matrix

---
 src/LinearAlgebra/linear_solver.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/LinearAlgebra/linear_solver.cpp b/src/LinearAlgebra/linear_solver.cpp
index 1645c7e..e7ce29e 100644
--- a/src/LinearAlgebra/linear_solver.cpp
+++ b/src/LinearAlgebra/linear_solver.cpp
@@ -50,6 +50,9 @@ void CholeskySystem::setDimension(unsigned dim){
 	A.resize(dim, dim);
 	factorizationMatrix.resize(dim, dim);
 
+	ifMatrixIsSet = false;
+	ifFactorizationIsDone = false;
+
 }
 
 unsigned int CholeskySystem::getDimension(void) const{
@@ -179,6 +182,9 @@ void LUSystem::setDimension(unsigned int dim){
 
 	pivots.resize(dimension);
 
+	ifMatrixIsSet = false;
+	ifFactorizationIsDone = false;
+
 }
 
 int LUSystem::getDimension(void) const{
-- 
2.43.0


From 0a9f4cc5238c8a9cf54964123054638ba112add6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 07/69] fix: mat::readFromCSV accepts entries with trailing
 garbage and leaves a broken matrix behind when rows differ in length

---
 src/LinearAlgebra/matrix.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/LinearAlgebra/matrix.cpp b/src/LinearAlgebra/matrix.cpp
index 0876921..3d54146 100644
--- a/src/LinearAlgebra/matrix.cpp
+++ b/src/LinearAlgebra/matrix.cpp
@@ -1015,7 +1015,11 @@ void mat::readFromCSV(const std::string& filename, bool hasHeader) {
 		std::vector<double> row;
 
 		while (std::getline(ss, value, ',')) {
-			row.push_back(std::stod(value));
+			size_t parsed = 0;
+			row.push_back(std::stod(value, &parsed));
+			if (value.find_first_not_of(" \t\r", parsed) != std::string::npos) {
+				throw std::runtime_error("Invalid entry \"" + value + "\" in file: " + filename);
+			}
 		}
 
 		data.push_back(row);
@@ -1027,6 +1031,12 @@ void mat::readFromCSV(const std::string& filename, bool hasHeader) {
 		throw std::runtime_error("No data found in file: " + filename);
 	}
 
+	for (size_t i = 0; i < data.size(); ++i) {
+		if (data[i].size() != data[0].size()) {
+			throw std::runtime_error("Inconsistent number of columns in row " + std::to_string(i));
+		}
+	}
+
 	// Determine the number of rows and columns
 	nrows = data.size();
 	ncols = data[0].size();
@@ -1037,9 +1047,6 @@ void mat::readFromCSV(const std::string& filename, bool hasHeader) {
 
 	// Fill the matrix with data from the vector
 	for (unsigned int i = 0; i < nrows; ++i) {
-		if (data[i].size() != static_cast<size_t>(ncols)) {
-			throw std::runtime_error("Inconsistent number of columns in row " + std::to_string(i));
-		}
 		for (unsigned int j = 0; j < ncols; ++j) {
 			matrix[j * nrows + i] = data[i][j];  // Column-major order
 		}
-- 
2.43.0


From 3967f81ddde4641bb78aeef520080f582325d396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 08/69] fix: vec::readFromCSV ignores everything after the
 first number of a line

---
 src/LinearAlgebra/vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinearAlgebra/vector.cpp b/src/LinearAlgebra/vector.cpp
index b2818f0..0c12d21 100644
--- a/src/LinearAlgebra/vector.cpp
+++ b/src/LinearAlgebra/vector.cpp
@@ -716,7 +716,7 @@ void vec::readFromCSV(const std::string& filename) {
 	while (std::getline(inFile, line)) {
 		std::istringstream ss(line);
 		double value;
-		if (!(ss >> value)) {
+		if (!(ss >> value) || !(ss >> std::ws).eof()) {
 			throw std::runtime_error("Invalid data in CSV file.");
 		}
 		tempData.push_back(value);
-- 
2.43.0


From 0e6b90f70d6d13e36c3c210a76f840d33a983bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 09/69] fix: vec::appendToCSV glues the new row to the last one
 when the file does not end with a newline

---
 src/LinearAlgebra/vector.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/LinearAlgebra/vector.cpp b/src/LinearAlgebra/vector.cpp
index 0c12d21..9f8f199 100644
--- a/src/LinearAlgebra/vector.cpp
+++ b/src/LinearAlgebra/vector.cpp
@@ -649,6 +649,7 @@ vec vec::unitVector(NormType type) const {
 void vec::appendToCSV(const std::string& filename, int precision) const {
     // Check if the CSV file exists and has the expected number of columns
     std::ifstream inFile(filename);
+    bool isNewLineMissing = false;
     if (inFile.is_open()) {
         std::string line;
         if (std::getline(inFile, line)) {
@@ -665,6 +666,11 @@ void vec::appendToCSV(const std::string& filename, int precision) const {
             if (columnCount != size) {
                 throw std::runtime_error("Size of vector does not match the number of columns in the CSV file.");
             }
+
+            // The last row may not be terminated by a newline
+            inFile.clear();
+            inFile.seekg(-1, std::ios::end);
+            isNewLineMissing = inFile.get() != '\n';
         }
         inFile.close();
     }
@@ -678,6 +684,10 @@ void vec::appendToCSV(const std::string& filename, int precision) const {
     // Set precision for floating-point output
     outFile << std::fixed << std::setprecision(precision);
 
+    if (isNewLineMissing) {
+        outFile << "\n";
+    }
+
     // Append vector data as a new row
     for (unsigned int i = 0; i < size; ++i) {
         outFile << data[i];
-- 
2.43.0


From ef8f723b8baaafa284e472de1542d7603428e19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 10/69] fix: rejected bounds leave a Bounds object half
 modified, sizes are not compared and NaN passes the bound checks

---
 src/Bounds/bounds.cpp | 58 +++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/src/Bounds/bounds.cpp b/src/Bounds/bounds.cpp
index 6a83dcb..256ca58 100644
--- a/src/Bounds/bounds.cpp
+++ b/src/Bounds/bounds.cpp
@@ -5,6 +5,27 @@
 
 namespace Rodop {
 
+static bool areBoundsValid(const vec &lb, const vec &ub) {
+	if (lb.getSize() != ub.getSize()) {
+		return false;
+	}
+	for (unsigned int i = 0; i < lb.getSize(); ++i) {
+		if (!(lb(i) < ub(i))) {
+			return false;
+		}
+	}
+	return true;
+}
+
+static vec convertToVec(const std::vector<double> &input) {
+	vec result;
+	result.resize(input.size());
+	for (unsigned int i = 0; i < input.size(); ++i) {
+		result(i) = input[i];
+	}
+	return result;
+}
+
 Bounds::Bounds(){}
 
 Bounds::Bounds(unsigned int dim){
@@ -37,6 +58,10 @@ Bounds::Bounds(std::vector<double> lb, std::vector<double> ub) {
 
 Bounds::Bounds(vec lb, vec ub){
 
+	if(lb.getSize() != ub.getSize()){
+		throw std::runtime_error("Lower and upper bounds must have the same size.");
+	}
+
 	lowerBounds = lb;
 	upperBounds = ub;
 	dimension = lb.getSize();
@@ -67,7 +92,7 @@ void Bounds::setDimension(unsigned int value){
 
 void Bounds::setBounds(double lowerBound, double upperBound) {
 
-	if (lowerBound >= upperBound) {
+	if (!(lowerBound < upperBound)) {
 		throw std::invalid_argument("Upper bound must be greater than lower bound.");
 	}
 	if (dimension<=0) {
@@ -86,22 +111,7 @@ void Bounds::setBounds(double lowerBound, double upperBound) {
 
 void Bounds::setBounds(std::vector<double> lb, std::vector<double> ub){
 
-	unsigned int size = lb.size();
-	lowerBounds.resize(size);
-	upperBounds.resize(size);
-
-	for (unsigned int i = 0; i < size; ++i) {
-		lowerBounds(i) = lb[i];
-		upperBounds(i) = ub[i];
-	}
-
-	dimension = size;
-
-	if (!checkBounds()) {
-		throw std::invalid_argument("Invalid bounds: each lower bound must be less than the corresponding upper bound.");
-	}
-
-	ifBoundsAreSet = true;
+	setBounds(convertToVec(lb), convertToVec(ub));
 }
 
 
@@ -113,13 +123,13 @@ void Bounds::setBounds(vec lowerBoundsInput, vec upperBoundsInput) {
 		throw std::invalid_argument("Lower bounds and upper bounds must have the same size.");
 	}
 
+	if (!areBoundsValid(lowerBoundsInput, upperBoundsInput)) {
+		throw std::invalid_argument("Invalid bounds: lower bound must be less than upper bound for all dimensions.");
+	}
+
 	lowerBounds = lowerBoundsInput;
 	upperBounds = upperBoundsInput;
-
 	dimension = lowerBounds.getSize();
-	if (!checkBounds()) {
-		throw std::invalid_argument("Invalid bounds: lower bound must be less than upper bound for all dimensions.");
-	}
 	ifBoundsAreSet = true;
 }
 
@@ -146,7 +156,7 @@ bool Bounds::checkIfBoundsAreValid(void) const{
 	}
 
 	for(unsigned int i=0; i<dimension; i++){
-		if(lowerBounds(i) >= upperBounds(i) ) {
+		if(!(lowerBounds(i) < upperBounds(i)) ) {
 			lowerBounds.print("lowerBounds");
 			upperBounds.print("upperBounds");
 			return false;
@@ -162,7 +172,7 @@ bool Bounds::checkBounds(void) const{
 	}
 
 	for(unsigned int i=0; i<dimension; i++){
-		if(lowerBounds(i) >= upperBounds(i) ) {
+		if(!(lowerBounds(i) < upperBounds(i)) ) {
 			return false;
 		}
 	}
@@ -175,7 +185,7 @@ bool Bounds::isPointWithinBounds(const vec &inputVector) const {
 	}
 
 	for (unsigned int i = 0; i < dimension; ++i) {
-		if (inputVector(i) < lowerBounds(i) || inputVector(i) > upperBounds(i)) {
+		if (!(inputVector(i) >= lowerBounds(i) && inputVector(i) <= upperBounds(i))) {
 			return false;
 		}
 	}
-- 
2.43.0


From b167b7fbd3b5e392502cbd1e2a383fb7eaae6bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 11/69] fix: random samples can leave the box by a rounding
 error at the upper bound

---
 src/LinearAlgebra/matrix.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LinearAlgebra/matrix.cpp b/src/LinearAlgebra/matrix.cpp
index 3d54146..60c7bd3 100644
--- a/src/LinearAlgebra/matrix.cpp
+++ b/src/LinearAlgebra/matrix.cpp
@@ -422,7 +422,7 @@ void mat::fillRandom(double a, double b) {
 
 	for (unsigned int i = 0; i < nrows*ncols; ++i) {
 		matrix[i] = static_cast<double>(rand()) / RAND_MAX;
-		matrix[i] = matrix[i]*(b-a) + a;
+		matrix[i] = std::min(matrix[i]*(b-a) + a, b);
 	}
 
 
@@ -441,7 +441,7 @@ void mat::fillRandom(const vec& lb, const vec& ub) {
 
 		for (unsigned int row = 0; row < nrows; ++row) {
 			double randomValue = static_cast<double>(rand()) / RAND_MAX;
-			(*this)(row, col) = lb(col) + randomValue * (ub(col) - lb(col));
+			(*this)(row, col) = std::min(lb(col) + randomValue * (ub(col) - lb(col)), ub(col));
 		}
 	}
 }
@@ -490,7 +490,7 @@ void mat::fillRandomLHS(const vec& lb, const vec& ub) {
 
 		for (unsigned int row = 0; row < nrows; ++row) {
 			double lower = lb(col) + row * intervalSize;
-			double upper = lb(col) + (row + 1) * intervalSize;
+			double upper = std::min(lb(col) + (row + 1) * intervalSize, ub(col));
 			std::uniform_real_distribution<double> dis(lower, upper);
 			intervals[row] = dis(gen);  // Sample randomly within each interval
 		}
@@ -527,7 +527,7 @@ void mat::fillRandomLHS(const std::vector<double>& lb, const std::vector<double>
 
 		for (unsigned int row = 0; row < nrows; ++row) {
 			double lower = lb[col] + row * intervalSize;
-			double upper = lb[col] + (row + 1) * intervalSize;
+			double upper = std::min(lb[col] + (row + 1) * intervalSize, ub[col]);
 			std::uniform_real_distribution<double> dis(lower, upper);
 			intervals[row] = dis(gen);  // Sample randomly within each interval
 		}
-- 
2.43.0


From d692a553af0f63a54fe706097f6f2a62d089211c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 12/69] fix: ConstraintDefinition::setDefinition turns
 malformed expressions into other constraints

---
 .../constraint_functions.cpp                  | 46 ++++++++++---------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/ObjectiveFunctions/constraint_functions.cpp b/src/ObjectiveFunctions/constraint_functions.cpp
index 52deb44..c6960ca 100644
--- a/src/ObjectiveFunctions/constraint_functions.cpp
+++ b/src/ObjectiveFunctions/constraint_functions.cpp
@@ -1,6 +1,7 @@
 #include <stdio.h>
 #include <math.h>
 #include <string>
+#include <sstream>
 #include <stdlib.h>
 #include <iostream>
 #include <unistd.h>
@@ -30,40 +31,43 @@ void ConstraintDefinition::setDefinition(const std::string& definition) {
         throw std::invalid_argument("Constraint definition is empty.");
     }
 
-    // Find the positions of '>' or '<' in the definition string
-    size_t found = definition.find(">");
-    size_t found2 = definition.find("<");
-    size_t place;
-    std::string nameBuf, typeBuf, valueBuf;
-
-    // Determine the inequality operator and position
-    if (found != std::string::npos) {
-        place = found;
-    } else if (found2 != std::string::npos) {
-        place = found2;
-    } else {
+    // Exactly one inequality operator is allowed
+    size_t place = definition.find_first_of("<>");
+    if (place == std::string::npos) {
         throw std::invalid_argument("Invalid constraint definition format. Must contain '>' or '<'.");
     }
+    if (definition.find_first_of("<>", place + 1) != std::string::npos) {
+        throw std::invalid_argument("Invalid constraint definition format. Must contain only one '>' or '<'.");
+    }
 
     // Extract the name, inequality type, and value from the definition string
-    nameBuf.assign(definition, 0, place);
-    nameBuf = removeSpacesFromString(nameBuf); // Remove spaces from the name
-
-    typeBuf.assign(definition, place, 1); // The inequality symbol (either '>' or '<')
+    std::istringstream nameStream(definition.substr(0, place));
+    std::istringstream valueStream(definition.substr(place + 1));
+    std::string nameBuf, valueBuf, rest;
 
-    valueBuf.assign(definition, place + 1, definition.length() - nameBuf.length() - typeBuf.length());
-    valueBuf = removeSpacesFromString(valueBuf); // Remove spaces from the value
+    if (!(nameStream >> nameBuf) || (nameStream >> rest)) {
+        throw std::invalid_argument("Invalid constraint name in constraint definition.");
+    }
+    if (!(valueStream >> valueBuf) || (valueStream >> rest)) {
+        throw std::invalid_argument("Invalid numerical value in constraint definition.");
+    }
 
     // Check if valueBuf can be converted to a valid double
+    double valueInput = 0.0;
+    size_t numberOfCharactersRead = 0;
     try {
-        value = std::stod(valueBuf);
-    } catch (const std::invalid_argument& e) {
+        valueInput = std::stod(valueBuf, &numberOfCharactersRead);
+    } catch (const std::exception& e) {
+        throw std::invalid_argument("Invalid numerical value in constraint definition.");
+    }
+    if (numberOfCharactersRead != valueBuf.length()) {
         throw std::invalid_argument("Invalid numerical value in constraint definition.");
     }
 
     // Set class members
     constraintName = nameBuf;
-    inequalityType = typeBuf;
+    inequalityType = definition.substr(place, 1);
+    value = valueInput;
 }
 
 
-- 
2.43.0


From 328ac82b9aca89a6edf2c5577f3d3ae1ee28720c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 13/69] fix: API constraint expressions need no blanks around
 the inequality and must not have trailing text

---
 src/API/cppAPI.cpp | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 06642be..9f2c0e8 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -168,30 +168,18 @@ std::string trim(const std::string& str) {
 }
 
 ParsedConstraintExpression parseExpression(const std::string& input) {
-	// Trim the input to remove leading/trailing whitespace
-	std::string trimmedInput = trim(input);
-	std::istringstream stream(trimmedInput);
 	ParsedConstraintExpression result;
+	ConstraintDefinition definition;
 
-	// Read the name part
-	if (!(stream >> result.name)) {
-		throw std::invalid_argument("Failed to parse the name part from expression: '" + input + "'");
+	try {
+		definition.setDefinition(trim(input));
+	} catch (const std::exception& e) {
+		throw std::invalid_argument("Failed to parse the expression: '" + input + "' (" + e.what() + ")");
 	}
 
-	// Read the inequality part
-	if (!(stream >> result.inequality)) {
-		throw std::invalid_argument("Failed to parse the inequality part from expression: '" + input + "'");
-	}
-
-	// Validate the inequality part
-	if (result.inequality != "<" && result.inequality != ">") {
-		throw std::invalid_argument("Invalid inequality operator in expression: '" + input + "'");
-	}
-
-	// Read the floating point number part
-	if (!(stream >> result.value)) {
-		throw std::invalid_argument("Failed to parse the floating point number from expression: '" + input + "'");
-	}
+	result.name = definition.constraintName;
+	result.inequality = definition.inequalityType;
+	result.value = definition.value;
 
 	return result;
 }
-- 
2.43.0


From 979712b6325c47275145db192951ab620017dcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:21 +0000
Subject: [PATCH 14/69] fix: tangent sample of a constraint uses the
 differentiation direction of another constraint

---
 src/Design/design.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Design/design.cpp b/src/Design/design.cpp
index 2370ef8..7145eb2 100644
--- a/src/Design/design.cpp
+++ b/src/Design/design.cpp
@@ -264,7 +264,7 @@ vec Design::constructSampleConstraintWithTangent(unsigned int constraintID) cons
 	//	copyVectorFirstKElements(sample,designParameters, dimension);
 	sample(dimension) = constraintTrueValues(constraintID);
 	sample(dimension+1) = constraintTangent(constraintID);
-	vec direction = constraintDifferentiationDirectionsMatrix.getRow(ID);
+	vec direction = constraintDifferentiationDirectionsMatrix.getRow(constraintID);
 
 	for(unsigned int i=0; i<dimension; i++){
 		sample(dimension+2+i) = direction(i);
-- 
2.43.0


From a2e6f047ec59a6362dab2e407ce42f8f55eef222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:21 +0000
Subject: [PATCH 15/69] fix: Design::saveToAFile writes all numbers of a vector
 without separator

---
 src/Design/design.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Design/design.cpp b/src/Design/design.cpp
index 7145eb2..78546dd 100644
--- a/src/Design/design.cpp
+++ b/src/Design/design.cpp
@@ -610,7 +610,7 @@ void Design::saveToAFile(string filename) const{
 
 	for(unsigned int i=0; i<designParameters.getSize(); i++){
 
-		fileOut << designParameters(i);
+		fileOut << designParameters(i) << "\n";
 	}
 
 
@@ -623,7 +623,7 @@ void Design::saveToAFile(string filename) const{
 
 		for(unsigned int i=0; i<constraintTrueValues.getSize(); i++){
 
-			fileOut << constraintTrueValues(i);
+			fileOut << constraintTrueValues(i) << "\n";
 		}
 
 	}
-- 
2.43.0


From 0e3adefb826e0edbd1afe5d3f56ce7542787434c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:21 +0000
Subject: [PATCH 16/69] fix: a feasible design whose objective value is not
 below DBL_MAX is treated as if no feasible design existed

---
 src/Optimizers/globalOptimalDesign.cpp  | 2 +-
 src/Optimizers/optimization_history.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Optimizers/globalOptimalDesign.cpp b/src/Optimizers/globalOptimalDesign.cpp
index fc12c47..cc75043 100644
--- a/src/Optimizers/globalOptimalDesign.cpp
+++ b/src/Optimizers/globalOptimalDesign.cpp
@@ -55,7 +55,7 @@ unsigned int GlobalOptimalDesign::findBestDesignIndex(const mat& historyFile, bo
 		double objectiveValue = historyFile(i, dimension);
 
 		// Check if the design is feasible and better than the current best
-		if (feasibility > 0.0 && objectiveValue < bestObjectiveValue) {
+		if (feasibility > 0.0 && (!isFeasibleDesignFound || objectiveValue < bestObjectiveValue)) {
 			isFeasibleDesignFound = true;
 			bestObjectiveValue = objectiveValue;
 			bestDesignIndex = i;
diff --git a/src/Optimizers/optimization_history.cpp b/src/Optimizers/optimization_history.cpp
index 91b2b47..1b8f072 100644
--- a/src/Optimizers/optimization_history.cpp
+++ b/src/Optimizers/optimization_history.cpp
@@ -245,7 +245,7 @@ double OptimizationHistory::calculateInitialImprovementValue() const {
 
 	// Loop through all rows to find the best feasible objective function value
 	for (unsigned int i = 0; i < N; ++i) {
-		if (feasibilityValues(i) > 0.0 && objectiveFunctionValues(i) < bestFeasibleObjectiveFunctionValue) {
+		if (feasibilityValues(i) > 0.0 && (!ifFeasibleDesignFound || objectiveFunctionValues(i) < bestFeasibleObjectiveFunctionValue)) {
 			ifFeasibleDesignFound = true;
 			bestFeasibleObjectiveFunctionValue = objectiveFunctionValues(i);
 		}
-- 
2.43.0


From f93d89bd876c0f55852d293995244818b148b95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 17/69] fix: fitness of a population with (almost) equal, large
 or all zero objective values is garbage or aborts the run

---
 src/InternalOptimizers/ea_population.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index 36e8487..ef7d92b 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -405,21 +405,19 @@ void EAPopulation::updateFitnessValuesLinear() {
 
 void EAPopulation::updateFitnessValuesQuadratic() {
 
-	checkIfAllObjectiveFunctionValuesAreZero();
+	/* the quadratic polynomial with fitness(min) = 1, fitness(max) = worstFitness and zero slope at max,
+	 * evaluated relative to max: its monomial coefficients are useless if the values are (almost) equal,
+	 * far away from zero or huge */
+	const double worstFitness = 0.01;
+	const double range = populationMaximum - populationMinimum;
 
-	vec coefficients =
-			findPolynomialCoefficientsForQuadraticFitnessDistribution();
 	for (auto it = std::begin(population); it != std::end(population); ++it) {
-		double x = it->getObjectiveFunctionValue();
-		double fitnessValue = coefficients(0) * x * x + coefficients(1) * x
-				+ coefficients(2);
-		if(fitnessValue <= 0.0){
-			print();
-			std::cerr<< "WARNING: fitness value = " << fitnessValue << "\n";
-			throw std::runtime_error("EAPopulation::updateFitnessValuesQuadratic: invalid fitness value");
+		double fitnessValue = 1.0;
+		if(range > 0.0){
+			double t = (populationMaximum - it->getObjectiveFunctionValue()) / range;
+			fitnessValue = worstFitness + (1.0 - worstFitness) * t * t;
 		}
 
-
 		it->setFitnessValue(fitnessValue);
 	}
 }
-- 
2.43.0


From b727360b799a63e4bce95400296cd205517a20c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 18/69] fix: roulette selection aborts the run when the draw
 exceeds the rounded sum of the probabilities

---
 src/InternalOptimizers/ea_population.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index ef7d92b..1ce656d 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -599,7 +599,13 @@ EAIndividual EAPopulation::pickUpARandomIndividualForReproduction(void) const {
 		}
 	}
 
-	// This point should not be reached if the logic is correct
+	// The probabilities may add up to slightly less than one
+	for (auto it = population.rbegin(); it != population.rend(); ++it) {
+		if (it->getReproductionProbability() > 0.0) {
+			return *it;
+		}
+	}
+
 	throw std::runtime_error("Failed to pick a random individual for reproduction.");
 }
 
@@ -638,6 +644,12 @@ EAIndividual EAPopulation::pickUpAnIndividualThatWillDie(void) const {
 		}
 	}
 
+	// The probabilities may add up to slightly less than one
+	for (auto it = population.rbegin(); it != population.rend(); ++it) {
+		if (it->getDeathProbability() > 0.0) {
+			return *it;
+		}
+	}
 
 	throw std::runtime_error("Failed to pick a valid individual that will die.");
 
-- 
2.43.0


From fcc713d0019016964daa00438f13e1f5f47774d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 19/69] fix: minimum and maximum of an EAPopulation are wrong
 for negative or huge values and survive a reset

---
 src/InternalOptimizers/INCLUDE/ea_population.hpp | 4 ++--
 src/InternalOptimizers/ea_population.cpp         | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/InternalOptimizers/INCLUDE/ea_population.hpp b/src/InternalOptimizers/INCLUDE/ea_population.hpp
index 4a15939..1aad77e 100644
--- a/src/InternalOptimizers/INCLUDE/ea_population.hpp
+++ b/src/InternalOptimizers/INCLUDE/ea_population.hpp
@@ -18,8 +18,8 @@ private:
 
 	std::vector<EAIndividual> population;
 
-	double populationMinimum = std::numeric_limits<double>::max();
-	double populationMaximum = std::numeric_limits<double>::min();
+	double populationMinimum = std::numeric_limits<double>::infinity();
+	double populationMaximum = -std::numeric_limits<double>::infinity();
 	unsigned int idPopulationMinimum = 0;
 	unsigned int idPopulationMaximum = 0;
 	unsigned int dimension = 0;
diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index 1ce656d..a9d7fed 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -174,6 +174,7 @@ void EAPopulation::print(void) const {
 void EAPopulation::reset(void){
 
 	population.clear();
+	updatePopulationMinAndMax();
 
 }
 
@@ -249,7 +250,7 @@ void EAPopulation::readFromCSV(const std::string& filename) {
 		throw std::runtime_error("Cannot open file: " + filename);
 	}
 
-	population.clear();  // Clear any existing data
+	reset();  // Clear any existing data
 
 	std::string line;
 
@@ -347,8 +348,8 @@ void EAPopulation::updateMinAndMaxIfNecessary(double J, unsigned int id) {
 
 void EAPopulation::updatePopulationMinAndMax(void){
 
-	populationMaximum =  std::numeric_limits<double>::min();;
-	populationMinimum =  std::numeric_limits<double>::max();;
+	populationMaximum = -std::numeric_limits<double>::infinity();
+	populationMinimum =  std::numeric_limits<double>::infinity();
 	for(auto it = std::begin(population); it != std::end(population); ++it) {
 
 
-- 
2.43.0


From 6837fc272e11cabe9e0f5a0b79a4206c29b39143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 20/69] fix: the first child of the EA shares its id with the
 last initial individual, and children of a warm start collide with the loaded
 population

---
 src/InternalOptimizers/INCLUDE/ea_optimizer.hpp |  1 +
 src/InternalOptimizers/ea_optimizer.cpp         | 10 +++++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/InternalOptimizers/INCLUDE/ea_optimizer.hpp b/src/InternalOptimizers/INCLUDE/ea_optimizer.hpp
index a793aef..041be03 100644
--- a/src/InternalOptimizers/INCLUDE/ea_optimizer.hpp
+++ b/src/InternalOptimizers/INCLUDE/ea_optimizer.hpp
@@ -38,6 +38,7 @@ private:
 	unsigned int sizeOfInitialPopulation = 0;
 
 	unsigned int totalNumberOfGeneratedIndividuals = 0;
+	unsigned int lastUsedId = 0;
 	unsigned int totalNumberOfCrossOvers = 0;
 
 
diff --git a/src/InternalOptimizers/ea_optimizer.cpp b/src/InternalOptimizers/ea_optimizer.cpp
index a0ddf54..4ab7995 100644
--- a/src/InternalOptimizers/ea_optimizer.cpp
+++ b/src/InternalOptimizers/ea_optimizer.cpp
@@ -8,6 +8,7 @@
 #include <random>
 #include<chrono>
 #include <cassert>
+#include <algorithm>
 
 
 
@@ -105,8 +106,8 @@ EAIndividual  EAOptimizer::generateRandomIndividual(void){
 
 	//	output.printMessage("x", randomGenes);
 	newIndividual.initializeGenes(randomGenes);
-	unsigned int id = ++totalNumberOfGeneratedIndividuals;
-	newIndividual.setId(id);
+	++totalNumberOfGeneratedIndividuals;
+	newIndividual.setId(++lastUsedId);
 
 
 	callObjectiveFunction(newIndividual);
@@ -292,8 +293,8 @@ EAIndividual  EAOptimizer::generateIndividualByReproduction(std::pair<EAIndividu
 	vec newGenes =  crossOver(parents);
 
 	child.setGenes(newGenes);
-	child.setId(totalNumberOfGeneratedIndividuals);
 	++totalNumberOfGeneratedIndividuals;
+	child.setId(++lastUsedId);
 	return child;
 
 }
@@ -550,6 +551,9 @@ void EAOptimizer::readWarmRestartFile() {
 
 	try {
 		population.readFromCSV(filenameWarmStart);
+		for (unsigned int i = 0; i < population.getSize(); i++) {
+			lastUsedId = std::max(lastUsedId, population.getIdOftheIndividual(i));
+		}
 		ifPopulationIsInitialized = true;  // Set the flag after successful read
 	} catch (const std::exception& e) {
 		// Handle exceptions from readFromCSV
-- 
2.43.0


From 60c236af7de3c5b381a2f4538bffa161636950d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 21/69] fix: constraints whose registration order differs from
 their IDs are checked against each other's targets and get each other's names

---
 src/Optimizers/optimization.cpp                      | 7 ++++++-
 src/Optimizers/optimization_constraint_functions.cpp | 6 ++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index e30092f..4bba623 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -1099,8 +1099,13 @@ void Optimizer::initializeOptimizationHistory() {
 
 	// If constrained, add constraint names to the history
 	if (isConstrained()) {
+		// The constraint values are stored by ID, not by the order of registration
+		std::vector<std::string> constraintNames(numberOfConstraints);
 		for (const auto& constraint : constraintFunctions) {
-			history.addConstraintName(constraint.getName());
+			constraintNames.at(constraint.getID()) = constraint.getName();
+		}
+		for (const auto& constraintName : constraintNames) {
+			history.addConstraintName(constraintName);
 		}
 	}
 
diff --git a/src/Optimizers/optimization_constraint_functions.cpp b/src/Optimizers/optimization_constraint_functions.cpp
index f6c776c..19bf607 100644
--- a/src/Optimizers/optimization_constraint_functions.cpp
+++ b/src/Optimizers/optimization_constraint_functions.cpp
@@ -72,8 +72,11 @@ bool Optimizer::checkConstraintFeasibility(const vec& constraintValues) const {
         throw std::invalid_argument("Insufficient constraint values for feasibility check.");
     }
 
-    unsigned int i = 0;
     for (const auto& constraintFunction : constraintFunctions) {
+        const unsigned int i = constraintFunction.getID();
+        if (i >= constraintValues.getSize()) {
+            throw std::invalid_argument("Constraint ID exceeds the number of constraints.");
+        }
         if (!constraintFunction.checkFeasibility(constraintValues(i))) {
         	printInfoToLog("Constraint " + std::to_string(i) + " is not satisfied");
         	printInfoToLog("Constraint value = ", constraintValues(i));
@@ -85,7 +88,6 @@ bool Optimizer::checkConstraintFeasibility(const vec& constraintValues) const {
         	printInfoToLog("Constraint value = ", constraintValues(i));
 
         }
-        i++;
     }
 
     return true;  // All constraints are feasible
-- 
2.43.0


From 58cc82dbcda70f49094a33422e1352959783c487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 22/69] fix: without constraints an initial sample outside the
 box counts as feasible and can become the reported optimum

---
 src/Optimizers/optimization.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index 4bba623..866027e 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -1065,7 +1065,8 @@ void Optimizer::setOptimizationHistoryDataFeasibilityValues(mat &historyData) co
 	}
 	else{
 		for (unsigned int i = 0; i < N; ++i) {
-			historyData(i, nCols - 1) = 1.0;
+			// without constraints only the box decides
+			historyData(i, nCols - 1) = checkIfBoxConstraintsAreSatisfied(historyData.getRow(i).head(dimension)) ? 1.0 : 0.0;
 		}
 	}
 
-- 
2.43.0


From 65f37d57168df4f3c0d781c019555eb5605281e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 23/69] fix: the last value of a discrete parameter is lost, or
 leaves the box, by a rounding error

---
 src/Optimizers/optimization.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index 866027e..f9bd6dc 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -1352,11 +1352,12 @@ int Optimizer::findClosestDiscreteValue(double value, const vec& discreteValues)
 }
 
 vec Optimizer::generateDiscreteValues(unsigned int index, double dx) const {
-	unsigned int numDiscreteValues = static_cast<unsigned int>((upperBounds(index) - lowerBounds(index)) / dx) + 1;
+	// the tolerance keeps the last value if the increment divides the range only up to a rounding error, e.g. (0.3-0.0)/0.1
+	unsigned int numDiscreteValues = static_cast<unsigned int>((upperBounds(index) - lowerBounds(index)) / dx + 1e-9) + 1;
 	vec discreteValues(numDiscreteValues);
 
 	for (unsigned int k = 0; k < numDiscreteValues; ++k) {
-		discreteValues(k) = lowerBounds(index) + k * dx;
+		discreteValues(k) = std::min(lowerBounds(index) + k * dx, upperBounds(index));
 	}
 
 	return discreteValues;
-- 
2.43.0


From 77c6e5ed17f43f0f2aeec132efd67cff1a227bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 24/69] fix: a design proposed on the upper face leaves the box
 by a rounding error of the denormalization

---
 src/Optimizers/optimization.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index f9bd6dc..8bf6b47 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -1207,6 +1207,11 @@ void Optimizer::findTheMostPromisingDesignToBeSimulated() {
 	vec best_dvNorm = optimizedDesignGradientBased.dv;
 	vec best_dv = best_dvNorm.denormalizeVector(lowerBounds, upperBounds);
 
+	// denormalization may exceed the bounds by a rounding error
+	for (unsigned int i = 0; i < dimension; i++) {
+		best_dv(i) = std::min(std::max(best_dv(i), lowerBounds(i)), upperBounds(i));
+	}
+
 	if(areDiscreteParametersUsed()){
 		roundDiscreteParameters(best_dv);
 	}
-- 
2.43.0


From e6c7bb7b6520ff3968e88b572683876e88bf0f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 25/69] fix: enlarging the trust region shrinks it, its maximum
 is smaller than its initial size

---
 src/Optimizers/optimization.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index 8bf6b47..1556ce4 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -62,7 +62,8 @@ void Optimizer::initializeOptimizerSettings(void) {
 	iterGradientEILoop = 100;
 	improvementPercentThresholdForGradientStep = 5;
 
-	trLengthMax = 1.0/dimension;
+	/* relative to the size of the normalized box (see defineTrustRegion) */
+	trLengthMax = 1.0;
 	trLengthMin = pow(0.5,8)*trLengthMax;
 }
 
-- 
2.43.0


From aba65a177c54d333ba3280e62534a81321ce3246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:09 +0000
Subject: [PATCH 26/69] fix: a run from a single initial sample computes the
 exploration factor 0/0 and then examines no candidate

---
 src/Optimizers/optimization.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index 1556ce4..2ddde34 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -1290,7 +1290,8 @@ void Optimizer::adjustSigmaFactor(void) {
 
 
 
-	if (sigmaFactor < sigmaFactorMin)
+	/* the crowding factor may be zero (0/0) */
+	if (!(sigmaFactor >= sigmaFactorMin))
 		sigmaFactor = sigmaFactorMin;
 
 	if (sigmaFactor > sigmaFactorMax)
-- 
2.43.0


From 062f5403c761f50407b7b6ecbaecef5aa892defc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 27/69] fix: when the external program writes no output the
 value of an earlier evaluation is read again and recorded

---
 src/ObjectiveFunctions/objective_function.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ObjectiveFunctions/objective_function.cpp b/src/ObjectiveFunctions/objective_function.cpp
index 9f585ee..b7b5af0 100644
--- a/src/ObjectiveFunctions/objective_function.cpp
+++ b/src/ObjectiveFunctions/objective_function.cpp
@@ -831,6 +831,10 @@ void ObjectiveFunction::evaluateObjectiveFunction() const {
 	}
 
 	if (!runCommand.empty()) {
+		// A value must never be read from the output of an earlier run
+		if (!definition.outputFilename.empty()) {
+			std::remove(definition.outputFilename.c_str());
+		}
 		try {
 			// Execute the command and wait for completion
 			child c(runCommand);
-- 
2.43.0


From 544e8a154695e1e7ae006aab9eaf1770fd75d1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 28/69] fix: without an executable the evaluation only warns
 and reads whatever the output file holds

---
 src/ObjectiveFunctions/objective_function.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ObjectiveFunctions/objective_function.cpp b/src/ObjectiveFunctions/objective_function.cpp
index b7b5af0..e1522d7 100644
--- a/src/ObjectiveFunctions/objective_function.cpp
+++ b/src/ObjectiveFunctions/objective_function.cpp
@@ -849,7 +849,9 @@ void ObjectiveFunction::evaluateObjectiveFunction() const {
 			throw std::runtime_error(msg);
 		}
 	} else {
-		printWarningToLog("No valid command found to execute the objective function.");
+		std::string msg = "No valid command found to execute the objective function.";
+		printErrorToLog(msg);
+		throw std::runtime_error(msg);
 	}
 }
 
-- 
2.43.0


From 3d93ded3a05eb618cc693cfe64710b0360bd4c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 29/69] fix: a design vector file that cannot be written aborts
 the process, or is silently left incomplete

---
 src/ObjectiveFunctions/objective_function.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ObjectiveFunctions/objective_function.cpp b/src/ObjectiveFunctions/objective_function.cpp
index e1522d7..a5d76b3 100644
--- a/src/ObjectiveFunctions/objective_function.cpp
+++ b/src/ObjectiveFunctions/objective_function.cpp
@@ -702,7 +702,9 @@ void ObjectiveFunction::writeDesignVariablesToFile(Design &d) const{
 	std::ofstream outputFileStream(definition.designVectorFilename);
 
 	if (!outputFileStream.is_open()) {
-		abort();
+		std::string msg = "There was a problem opening the design vector file: " + definition.designVectorFilename;
+		printErrorToLog(msg);
+		throw std::runtime_error(msg);
 	}
 
 	for(unsigned int i=0; i<dim; i++) {
@@ -721,6 +723,12 @@ void ObjectiveFunction::writeDesignVariablesToFile(Design &d) const{
 	}
 	outputFileStream.close();
 
+	if (outputFileStream.fail()) {
+		std::string msg = "There was a problem writing the design vector file: " + definition.designVectorFilename;
+		printErrorToLog(msg);
+		throw std::runtime_error(msg);
+	}
+
 }
 
 void ObjectiveFunction::evaluateDesign(Design &d) {
-- 
2.43.0


From 821c9b8983e1039b487124e750475a6b8950759f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 30/69] fix: the external program gets the design rounded to 6
 digits while the unrounded design is recorded

---
 src/ObjectiveFunctions/objective_function.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ObjectiveFunctions/objective_function.cpp b/src/ObjectiveFunctions/objective_function.cpp
index a5d76b3..11d829e 100644
--- a/src/ObjectiveFunctions/objective_function.cpp
+++ b/src/ObjectiveFunctions/objective_function.cpp
@@ -36,6 +36,7 @@
 #include <unistd.h>
 #include <cassert>
 #include <algorithm>  // Include this for std::find
+#include <limits>
 #include <stdexcept>  // For std::invalid_argument
 #include <vector>
 #include <boost/process.hpp>
@@ -707,6 +708,9 @@ void ObjectiveFunction::writeDesignVariablesToFile(Design &d) const{
 		throw std::runtime_error(msg);
 	}
 
+	// The program must see the same design as the one that is recorded
+	outputFileStream.precision(std::numeric_limits<double>::max_digits10);
+
 	for(unsigned int i=0; i<dim; i++) {
 
 		outputFileStream << d.designParameters(i) << std::endl;
-- 
2.43.0


From 7cc25612b78527e3688dedaf7187378114540a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 31/69] fix: an output file whose number is followed by other
 text, as in 1.5abc or 1.2.3, is read as a number

---
 src/ObjectiveFunctions/objective_function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ObjectiveFunctions/objective_function.cpp b/src/ObjectiveFunctions/objective_function.cpp
index 11d829e..fac06c5 100644
--- a/src/ObjectiveFunctions/objective_function.cpp
+++ b/src/ObjectiveFunctions/objective_function.cpp
@@ -682,7 +682,7 @@ vec ObjectiveFunction::readOutput(const std::string &filename, unsigned int howM
 
 	// Read the output values from the file
 	for (unsigned int i = 0; i < howMany; i++) {
-		if (!(inputFileStream >> result(i))) {
+		if (!(inputFileStream >> result(i)) || !(inputFileStream.eof() || std::isspace(inputFileStream.peek()))) {
 			std::string msg = "Failed to read value " + std::to_string(i) + " from file: " + filename;
 			ObjectiveFunctionLogger::getInstance().log(ERROR, msg);
 			throw std::runtime_error(msg);
-- 
2.43.0


From 9bfaa0f05b354a701006558507981add11304ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:43 +0000
Subject: [PATCH 32/69] fix: the expected improvement of a poor candidate
 becomes negative by cancellation

---
 src/Design/design_bo.cpp                      | 2 +-
 src/ObjectiveFunctions/objective_function.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Design/design_bo.cpp b/src/Design/design_bo.cpp
index cfbb080..a9181a8 100644
--- a/src/Design/design_bo.cpp
+++ b/src/Design/design_bo.cpp
@@ -182,7 +182,7 @@ double  DesignForBayesianOptimization::cdf(double x0, double mu, double s)
 {
 
 	double inp = (x0 - mu) / (s * SQRT2);
-	double result = 0.5 * (1.0 + erf(inp));
+	double result = 0.5 * erfc(-inp);
 	return result;
 }
 
diff --git a/src/ObjectiveFunctions/objective_function.cpp b/src/ObjectiveFunctions/objective_function.cpp
index fac06c5..149617e 100644
--- a/src/ObjectiveFunctions/objective_function.cpp
+++ b/src/ObjectiveFunctions/objective_function.cpp
@@ -1030,7 +1030,7 @@ double ObjectiveFunction::cdf(double x0, double mu, double sigma) const
 {
 
 	double inp = (x0 - mu) / (sigma * SQRT2);
-	double result = 0.5 * (1.0 + erf(inp));
+	double result = 0.5 * erfc(-inp);
 	return result;
 }
 
-- 
2.43.0


From 8d309f42e5a79decf879a6439e024f5c2cb4fb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:13 +0000
Subject: [PATCH 33/69] fix: the search threads compare their candidate with
 the best one outside the critical section, a data race that can keep the
 worse candidate

---
 src/Optimizers/optimization.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index 2ddde34..2e1378c 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -688,18 +688,14 @@ void Optimizer::searchAroundGlobalOptima(DesignForBayesianOptimization &designWi
 			designToBeTried.generateRandomDesignVectorAroundASample(dv0, lb,ub);
 			objFun.calculateExpectedImprovement(designToBeTried);
 			addPenaltyToAcqusitionFunctionForConstraints(designToBeTried);
-			if (designToBeTried.valueAcquisitionFunction
-					> designWithMaxAcqusition.valueAcquisitionFunction) {
 #ifdef OPENMP_SUPPORT
 #pragma omp critical
 #endif
-				{
+			{
+				if (designToBeTried.valueAcquisitionFunction
+						> designWithMaxAcqusition.valueAcquisitionFunction) {
 					designWithMaxAcqusition = designToBeTried;
 				}
-#if 0
-				printf("A design with a better EI value has been found (second loop) \n");
-				designToBeTried.print();
-#endif
 			}
 		}
 	}
@@ -728,12 +724,12 @@ void Optimizer::searchCompleteDesignSpace(DesignForBayesianOptimization &designW
 		designToBeTried.generateRandomDesignVector(lb, ub);
 		objFun.calculateExpectedImprovement(designToBeTried);
 		addPenaltyToAcqusitionFunctionForConstraints(designToBeTried);
-		if (designToBeTried.valueAcquisitionFunction
-				> designWithMaxAcqusition.valueAcquisitionFunction) {
 #ifdef OPENMP_SUPPORT
 #pragma omp critical
 #endif
-			{
+		{
+			if (designToBeTried.valueAcquisitionFunction
+					> designWithMaxAcqusition.valueAcquisitionFunction) {
 				designWithMaxAcqusition = designToBeTried;
 			}
 		}
-- 
2.43.0


From a2234b454aab3fe3c9896ec60cd93759d0bc3c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:59 +0000
Subject: [PATCH 34/69] fix: the threads training a model share the random
 engines of the EA without synchronization

---
 src/InternalOptimizers/INCLUDE/ea_individual.hpp | 2 +-
 src/InternalOptimizers/INCLUDE/ea_population.hpp | 2 +-
 src/InternalOptimizers/ea_individual.cpp         | 2 +-
 src/InternalOptimizers/ea_population.cpp         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/InternalOptimizers/INCLUDE/ea_individual.hpp b/src/InternalOptimizers/INCLUDE/ea_individual.hpp
index f48f5e7..68cba32 100644
--- a/src/InternalOptimizers/INCLUDE/ea_individual.hpp
+++ b/src/InternalOptimizers/INCLUDE/ea_individual.hpp
@@ -22,7 +22,7 @@ private:
 	unsigned int dimension = 0;
 	vec genes;
 
-	static std::mt19937 rng;
+	static thread_local std::mt19937 rng;
 
 public:
 
diff --git a/src/InternalOptimizers/INCLUDE/ea_population.hpp b/src/InternalOptimizers/INCLUDE/ea_population.hpp
index 1aad77e..80e8bad 100644
--- a/src/InternalOptimizers/INCLUDE/ea_population.hpp
+++ b/src/InternalOptimizers/INCLUDE/ea_population.hpp
@@ -14,7 +14,7 @@ class EAPopulation{
 
 private:
 
-	static std::mt19937 gen;
+	static thread_local std::mt19937 gen;
 
 	std::vector<EAIndividual> population;
 
diff --git a/src/InternalOptimizers/ea_individual.cpp b/src/InternalOptimizers/ea_individual.cpp
index e5b5949..a613c2b 100644
--- a/src/InternalOptimizers/ea_individual.cpp
+++ b/src/InternalOptimizers/ea_individual.cpp
@@ -9,7 +9,7 @@ using namespace std;
 
 namespace Rodop{
 
-std::mt19937 EAIndividual::rng(std::chrono::system_clock::now().time_since_epoch().count());
+thread_local std::mt19937 EAIndividual::rng(std::random_device{}());
 
 
 EAIndividual::EAIndividual(){}
diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index a9d7fed..8926166 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -13,7 +13,7 @@
 using namespace std;
 namespace Rodop{
 
-std::mt19937 EAPopulation::gen(std::chrono::system_clock::now().time_since_epoch().count());
+thread_local std::mt19937 EAPopulation::gen(std::random_device{}());
 
 void EAPopulation::setDimension(unsigned int value){
 
-- 
2.43.0


From fe3fd88bfffd02f47ec442c1b9cd1f77a45f1029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:59 +0000
Subject: [PATCH 35/69] fix: every training divides the number of training
 iterations by the number of threads again, until it is zero

---
 src/SurrogateModels/kriging_training.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 72ee7f1..6f0e014 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -734,8 +734,8 @@ void KrigingModel::train() {
 		ModelLogger::getInstance().log(INFO, "Number of generations = " + std::to_string(numberOfGenerations));
 		ModelLogger::getInstance().log(INFO, "Number of threads = " + std::to_string(numberOfThreads));
 
-		numberOfTrainingIterations = numberOfTrainingIterations / numberOfThreads;
-		ModelLogger::getInstance().log(INFO, "Number of iterations per thread: " + std::to_string(numberOfTrainingIterations));
+		unsigned int numberOfIterationsPerThread = std::max(numberOfTrainingIterations / numberOfThreads, 1u);
+		ModelLogger::getInstance().log(INFO, "Number of iterations per thread: " + std::to_string(numberOfIterationsPerThread));
 		vec bestSolution;
 #ifdef OPENMP_SUPPORT
 		omp_set_num_threads(numberOfThreads);
@@ -752,7 +752,7 @@ void KrigingModel::train() {
 
 			parameterOptimizer.setInitialPopulationSize(initialPopulationSize);
 			parameterOptimizer.setMutationProbability(0.1);
-			parameterOptimizer.setMaximumNumberOfGeneratedIndividuals(numberOfTrainingIterations);
+			parameterOptimizer.setMaximumNumberOfGeneratedIndividuals(numberOfIterationsPerThread);
 
 
 			parameterOptimizer.setNumberOfGenerations(numberOfGenerations);
-- 
2.43.0


From 533824362a9c58020831433c0c94cb6e62db3636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:23 +0000
Subject: [PATCH 36/69] fix: training fails when no hyper-parameters have a
 finite likelihood, as for an output that is zero at all samples

---
 src/SurrogateModels/kriging_training.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 6f0e014..ccca2b9 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -768,7 +768,7 @@ void KrigingModel::train() {
 			{
 				double bestSolutionLikelihood = threadBestSolution.getObjectiveFunctionValue();
 				ModelLogger::getInstance().log(INFO, "Best likelihood at local thread = " + std::to_string(bestSolutionLikelihood));
-				if (bestSolutionLikelihood < globalBestError) {
+				if (bestSolution.isEmpty() || bestSolutionLikelihood < globalBestError) {
 					bestSolution = optimizedHyperParameters;
 					globalBestError = bestSolutionLikelihood;
 				}
-- 
2.43.0


From 53f453c587356d99a80286aae32b2ad3ca6eab43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:23 +0000
Subject: [PATCH 37/69] fix: hyper-parameters whose correlation matrix has no
 factorization get the best possible validation error and are installed

---
 src/SurrogateModels/kriging_training.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index ccca2b9..bae633d 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -638,7 +638,7 @@ double KrigingModel::calculateValidationErrorForGivenHyperparameters(vec hyperPa
 
 	// Check if the factorization of the correlation matrix was successful
 	if (!linearSystemCorrelationMatrix.isFactorizationDone()) {
-		return std::numeric_limits<double>::lowest(); // Return a large negative value if factorization fails
+		return std::numeric_limits<double>::max(); // Return a large value if factorization fails
 	}
 
 	return calculateValidationError();
-- 
2.43.0


From e228f18ea1cb1489ecd6c62ba163fc2beb62eea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 38/69] fix: training with a validation ratio fails when no
 validation samples are left, as in the second training

---
 src/SurrogateModels/kriging_training.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index bae633d..5a2ddf1 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -703,7 +703,13 @@ void KrigingModel::train() {
 		}
 
 		if(ifHasValidationSamples){
-			setObjectiveFunctionTypeForModelTraining(VALIDATION_ERROR);
+			/* without validation samples left (all reverted, or too few samples for the ratio) the likelihood is used */
+			if(data.getNumberOfSamplesValidation() > 0){
+				setObjectiveFunctionTypeForModelTraining(VALIDATION_ERROR);
+			}
+			else{
+				setObjectiveFunctionTypeForModelTraining(MAXIMUM_LIKELIHOOD);
+			}
 		}
 
 
-- 
2.43.0


From 987ed52029368ed9f87d753c51c6c1449a62e7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 39/69] fix: normalizing the data of a surrogate model again
 scales the normalized values once more

---
 src/SurrogateModels/surrogate_model_data.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/SurrogateModels/surrogate_model_data.cpp b/src/SurrogateModels/surrogate_model_data.cpp
index 8d727d1..fca1fd4 100644
--- a/src/SurrogateModels/surrogate_model_data.cpp
+++ b/src/SurrogateModels/surrogate_model_data.cpp
@@ -341,6 +341,7 @@ void SurrogateModelData::assignGradientMatrix(void){
 		}
 
 		gradient = rawDataWork.submat(0, numberOfSamples - 1, dimension+1, 2*dimension);
+		gradientRaw = gradient;
 
 	}
 
@@ -409,11 +410,11 @@ void SurrogateModelData::normalizeSampleInputMatrix(void){
 		throw std::runtime_error("Zero range found in box constraints, leading to potential division by zero.");
 	}
 
-	X = X.normalizeMatrix(xmin,xmax);
+	X = Xraw.normalizeMatrix(xmin,xmax);
 
 	if(numberOfValidationSamples>0){
 		ModelLogger::getInstance().log(INFO,"SurrogateModelData: normalize sample input matrix for validation samples...");
-		XValidation = XValidation.normalizeMatrix(xmin,xmax);
+		XValidation = XrawValidation.normalizeMatrix(xmin,xmax);
 	}
 
 	ifDataIsNormalized = true;
@@ -433,7 +434,8 @@ void SurrogateModelData::normalizeSampleInputMatrixTest(void){
 		throw std::runtime_error("Zero range found in box constraints, leading to potential division by zero.");
 	}
 
-	XTest = XTest.normalizeMatrix(xmin,xmax);
+	mat inputsTest = XrawTest.submat(0,numberOfTestSamples - 1,  0, dimension - 1);
+	XTest = inputsTest.normalizeMatrix(xmin,xmax);
 
 }
 
@@ -449,7 +451,7 @@ void SurrogateModelData::normalizeDerivativesMatrix(void){
 		/* This factor is assumed to be same for all variables */
 		double scalingFactor = (ub(0) - lb(0))*dimension;
 		assert(scalingFactor > 0.0);
-		directionalDerivatives =  directionalDerivatives*scalingFactor;
+		directionalDerivatives =  rawDataWork.getCol(dimension+1)*scalingFactor;
 
 	}
 
@@ -463,16 +465,13 @@ void SurrogateModelData::normalizeGradientMatrix(void){
 	assert(dimension>0);
 	assert(gradient.getNCols() == dimension);
 
-
-	gradientRaw = gradient;
-
 	for(unsigned int i=0; i<dimension; i++){
 
 		vec lb = boxConstraints.getLowerBounds();
 		vec ub = boxConstraints.getUpperBounds();
 		double scalingFactor = (ub(i) - lb(i))*dimension;
 		assert(scalingFactor > 0.0);
-		vec scaledGradient = gradient.getCol(i)*scalingFactor;
+		vec scaledGradient = gradientRaw.getCol(i)*scalingFactor;
 		gradient.setCol(scaledGradient,i);
 
 	}
-- 
2.43.0


From 750292ea58f796dda65cd2048a2aec1abe439422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 40/69] fix: test data without function values read after test
 data with values are taken to have values

---
 src/SurrogateModels/surrogate_model_data.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SurrogateModels/surrogate_model_data.cpp b/src/SurrogateModels/surrogate_model_data.cpp
index fca1fd4..d99afd8 100644
--- a/src/SurrogateModels/surrogate_model_data.cpp
+++ b/src/SurrogateModels/surrogate_model_data.cpp
@@ -229,6 +229,7 @@ void SurrogateModelData::readDataTest(string inputFilename) {
 	} else if (XrawTest.getNCols() == dimension) {
 		// Data contains only input values
 		XTest = XrawTest;
+		ifTestDataHasFunctionValues = false;
 	} else {
 		// Invalid number of columns
 		throw std::runtime_error("Problem with test data (CSV format): incorrect number of columns in file: " + inputFilename);
-- 
2.43.0


From c9e1ef1ee1d1eeee91b99d8bb9f67b4b55e456e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 41/69] fix: reading the data again keeps the validation
 samples of the previous split, which leak into the training samples

---
 src/SurrogateModels/surrogate_model_data.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SurrogateModels/surrogate_model_data.cpp b/src/SurrogateModels/surrogate_model_data.cpp
index d99afd8..509cdc7 100644
--- a/src/SurrogateModels/surrogate_model_data.cpp
+++ b/src/SurrogateModels/surrogate_model_data.cpp
@@ -127,6 +127,9 @@ void SurrogateModelData::readData(string inputFilename){
 
 	ModelLogger::getInstance().log(INFO, "Ratio for validation samples: " + std::to_string(ratioValidationData) );
 
+	rawDataValidation.reset();
+	numberOfValidationSamples = 0;
+
 	if(ratioValidationData>0){
 		numberOfSamples = rawData.getNRows();
 		indicesForValidationData = generateRandomIndicesForValidationData(numberOfSamples, ratioValidationData);
-- 
2.43.0


From df2ae134b352b067230f9ed9a387efded860c3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 42/69] fix: with a validation split the in-sample error
 compares predictions with the outputs of other samples

---
 src/SurrogateModels/INCLUDE/surrogate_model_data.hpp | 1 +
 src/SurrogateModels/surrogate_model.cpp              | 3 +--
 src/SurrogateModels/surrogate_model_data.cpp         | 7 +++++++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp b/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp
index 6023ce2..508d9c0 100644
--- a/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp
+++ b/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp
@@ -156,6 +156,7 @@ public:
 	vec getRowXRawTest(unsigned int index) const;
 
 	vec getOutputVector(void) const;
+	vec getOutputVectorRaw(void) const;
 	void setOutputVector(vec);
 
 	vec getOutputVectorTest(void) const;
diff --git a/src/SurrogateModels/surrogate_model.cpp b/src/SurrogateModels/surrogate_model.cpp
index a4a3d23..c53daaa 100644
--- a/src/SurrogateModels/surrogate_model.cpp
+++ b/src/SurrogateModels/surrogate_model.cpp
@@ -199,8 +199,7 @@ double SurrogateModel::calculateInSampleError(string mode) const{
 	ModelLogger::getInstance().log(INFO, "Surrogate model: Calculating in sample error using " + std::to_string(data.getNumberOfSamples()) + " samples");
 
 	vec fTildeValues(data.getNumberOfSamples());
-	mat rawData = data.getRawData();
-	vec fExact = rawData.getCol(dimension);
+	vec fExact = data.getOutputVectorRaw();
 
 	mat X = data.getInputMatrix();
 	double squaredError = 0.0;
diff --git a/src/SurrogateModels/surrogate_model_data.cpp b/src/SurrogateModels/surrogate_model_data.cpp
index 509cdc7..6d48f9c 100644
--- a/src/SurrogateModels/surrogate_model_data.cpp
+++ b/src/SurrogateModels/surrogate_model_data.cpp
@@ -558,6 +558,13 @@ vec SurrogateModelData::getOutputVector(void) const{
 
 }
 
+/* outputs of the training samples as they are in the file, whatever setOutputVector has replaced them with */
+vec SurrogateModelData::getOutputVectorRaw(void) const{
+
+	return rawDataWork.getCol(dimension);
+
+}
+
 vec SurrogateModelData::getOutputVectorValidation(void) const{
 
 	return yValidation;
-- 
2.43.0


From a7ff6d9a8a396606e90c7251f2bff023cb0b7f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 43/69] fix: a regularization parameter set before the linear
 model is initialised is kept

---
 src/SurrogateModels/INCLUDE/linear_regression.hpp | 2 +-
 src/SurrogateModels/linear_regression.cpp         | 1 -
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/SurrogateModels/INCLUDE/linear_regression.hpp b/src/SurrogateModels/INCLUDE/linear_regression.hpp
index a999fb9..5a49563 100644
--- a/src/SurrogateModels/INCLUDE/linear_regression.hpp
+++ b/src/SurrogateModels/INCLUDE/linear_regression.hpp
@@ -10,7 +10,7 @@ namespace Rodop{
 class LinearModel : public SurrogateModel {
 
 	vec weights;
-	double regularizationParameter;
+	double regularizationParameter = 1e-8;
 
 public:
 
diff --git a/src/SurrogateModels/linear_regression.cpp b/src/SurrogateModels/linear_regression.cpp
index 4ed19dd..3b4db04 100644
--- a/src/SurrogateModels/linear_regression.cpp
+++ b/src/SurrogateModels/linear_regression.cpp
@@ -56,7 +56,6 @@ void LinearModel::initializeSurrogateModel(void) {
 
 	numberOfHyperParameters = dimension + 1;  // Set the number of hyperparameters
 	weights.resize(numberOfHyperParameters);  // Resize weights vector
-	regularizationParameter = 1e-8;           // Set regularization parameter
 
 	train();  // Train the model
 
-- 
2.43.0


From 0b8b3bf272d3180e7bb228de022f30cb1c7e0ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 44/69] fix: the header of the test results grows with every
 test of the same model, so a second test fails

---
 src/SurrogateModels/surrogate_model.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SurrogateModels/surrogate_model.cpp b/src/SurrogateModels/surrogate_model.cpp
index c53daaa..11d9542 100644
--- a/src/SurrogateModels/surrogate_model.cpp
+++ b/src/SurrogateModels/surrogate_model.cpp
@@ -255,6 +255,7 @@ double SurrogateModel::calculateOutSampleError(void){
 
 void SurrogateModel::writeFileHeaderForTestResults() {
 
+	testResultsFileHeader.clear();
 	unsigned int dim = data.getDimension();
 	for (unsigned int i = 0; i < dim; i++) {
 		string variableName = "x" + std::to_string(i + 1);
-- 
2.43.0


From be1c8e276180baebaf6cc051490095c88c4996ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 45/69] fix: ordinary Kriging tested after universal Kriging
 keeps the linear trend

---
 src/SurrogateModels/surrogate_model_tester.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SurrogateModels/surrogate_model_tester.cpp b/src/SurrogateModels/surrogate_model_tester.cpp
index 66c3eba..bcd8446 100644
--- a/src/SurrogateModels/surrogate_model_tester.cpp
+++ b/src/SurrogateModels/surrogate_model_tester.cpp
@@ -66,6 +66,7 @@ void SurrogateModelTester::bindSurrogateModels(void){
 		}
 		if(surrogateModelType == ORDINARY_KRIGING){
 			ModelLogger::getInstance().log(INFO, "Model Tester: Ordinary Kriging...");
+			krigingModel.setLinearRegressionOff();
 			surrogateModel = &krigingModel;
 		}
 		if(surrogateModelType == UNIVERSAL_KRIGING){
-- 
2.43.0


From bb335d5b184d71080af2f916707a6750bacb0076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 46/69] fix: a surrogate test after one with a warm start loads
 hyper-parameters instead of training

---
 src/SurrogateModels/surrogate_model_tester.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/SurrogateModels/surrogate_model_tester.cpp b/src/SurrogateModels/surrogate_model_tester.cpp
index bcd8446..6f9d9a5 100644
--- a/src/SurrogateModels/surrogate_model_tester.cpp
+++ b/src/SurrogateModels/surrogate_model_tester.cpp
@@ -135,9 +135,7 @@ void SurrogateModelTester::performSurrogateModelTest(void){
 	surrogateModel->initializeSurrogateModel();
 	surrogateModel->setNumberOfTrainingIterations(numberOfTrainingIterations);
 
-	if(ifReadWarmStart){
-		surrogateModel->setReadWarmStartFileFlag(true);
-	}
+	surrogateModel->setReadWarmStartFileFlag(ifReadWarmStart);
 	ModelLogger::getInstance().log(INFO, "Model Tester: Training surrogate model.");
 	surrogateModel->train();
 
-- 
2.43.0


From daf8c66f9f7befdaeceb79a9ec70c6ad550d7e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 47/69] fix: for test data without values the generalization
 error of an earlier test (or zero) is reported

---
 src/SurrogateModels/surrogate_model.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/SurrogateModels/surrogate_model.cpp b/src/SurrogateModels/surrogate_model.cpp
index 11d9542..e808966 100644
--- a/src/SurrogateModels/surrogate_model.cpp
+++ b/src/SurrogateModels/surrogate_model.cpp
@@ -465,12 +465,18 @@ void SurrogateModel::tryOnTestData(string mode){
 
 	testResults = results;
 
-	ModelLogger::getInstance().log(INFO,"Test error (MSE): " + std::to_string(generalizationError));
+	if(data.ifTestDataHasFunctionValues){
+		ModelLogger::getInstance().log(INFO,"Test error (MSE): " + std::to_string(generalizationError));
+	}
 
 }
 
 
 void SurrogateModel::printGeneralizationError(void) const{
+	if(!data.ifTestDataHasFunctionValues){
+		std::cout<<"Generalization error (MSE) : not available (test data has no function values)\n";
+		return;
+	}
 	std::cout << std::fixed << std::setprecision(8);
 	std::cout<<"Generalization error (MSE) : " << generalizationError << "\n";
 
-- 
2.43.0


From 3aaac66fe902c0cae0d1d846ea70335dc51cc792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:47 +0000
Subject: [PATCH 48/69] fix: the best individual can die when its fitness is
 not strictly among the best ten percent, the solution gets worse

---
 src/InternalOptimizers/ea_population.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index 8926166..2c1db73 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -550,7 +550,11 @@ void EAPopulation::updateDeathProbabilities(void){
 
 	for(i=0; i<getSize(); i++) {
 
-		if(fitnessValues(i) > best10PercentThreshold){
+		/* the best individual always survives: its fitness may equal that of others (ties, or values too close
+		 * to each other compared to the worst one) */
+		bool ifBest = getSize() > 1 && population[i].getId() == idPopulationMinimum;
+
+		if(ifBest || fitnessValues(i) > best10PercentThreshold){
 			oneOverFitness(i) = 0.0;
 		}
 		else{
-- 
2.43.0


From cc4af830a1760d64685e545c885b900a95e9668d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:16 +0000
Subject: [PATCH 49/69] fix: the restart file of a population rounds its
 values, and one holding the largest number cannot be read again

---
 src/InternalOptimizers/ea_population.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index 2c1db73..0d2cde8 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -224,7 +224,7 @@ void EAPopulation::writeToCSV(const std::string& filename) const {
 	// Write each individual's data to the file
 	for (const auto& individual : population) {
 		outFile << individual.getId() << ",";
-		outFile << std::setprecision(9) << std::scientific << individual.getObjectiveFunctionValue() << ",";
+		outFile << std::setprecision(std::numeric_limits<double>::max_digits10 - 1) << std::scientific << individual.getObjectiveFunctionValue() << ",";
 		outFile << individual.getFitnessValue() << ",";
 		outFile << individual.getReproductionProbability() << ",";
 		outFile << individual.getDeathProbability();
-- 
2.43.0


From aeb400267d7ddce58c126527e6866ac916873520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:23 +0000
Subject: [PATCH 50/69] fix: a damaged restart file of a population is loaded
 partially and the previous population is lost

---
 src/InternalOptimizers/ea_population.cpp | 101 ++++++++++++-----------
 1 file changed, 54 insertions(+), 47 deletions(-)

diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index 0d2cde8..715c883 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -8,6 +8,8 @@
 #include <iomanip>
 #include<limits>
 #include <algorithm>
+#include <cstdlib>
+#include <sstream>
 #include <set>
 
 using namespace std;
@@ -240,6 +242,37 @@ void EAPopulation::writeToCSV(const std::string& filename) const {
 	outFile.close();
 }
 
+static std::string readTokenFromCSVRow(std::istream& row, const std::string& what) {
+	std::string token;
+	std::getline(row, token, ',');
+	if (token.empty()) {
+		throw std::runtime_error("Missing " + what + " in CSV");
+	}
+	return token;
+}
+
+static unsigned int readIdFromCSVRow(std::istream& row) {
+	std::string token = readTokenFromCSVRow(row, "ID value");
+	if (token.find_first_not_of("0123456789") != std::string::npos) {
+		throw std::runtime_error("Invalid ID value in CSV: " + token);
+	}
+	unsigned long id = std::stoul(token);
+	if (id > std::numeric_limits<unsigned int>::max()) {
+		throw std::runtime_error("Invalid ID value in CSV: " + token);
+	}
+	return static_cast<unsigned int>(id);
+}
+
+static double readValueFromCSVRow(std::istream& row, const std::string& what) {
+	std::string token = readTokenFromCSVRow(row, what);
+	char* end = nullptr;
+	double value = std::strtod(token.c_str(), &end);
+	if (end == token.c_str() || *end != '\0') {
+		throw std::runtime_error("Invalid " + what + " in CSV: " + token);
+	}
+	return value;
+}
+
 void EAPopulation::readFromCSV(const std::string& filename) {
 	if (filename.empty()) {
 		throw std::invalid_argument("Filename cannot be empty.");
@@ -250,7 +283,8 @@ void EAPopulation::readFromCSV(const std::string& filename) {
 		throw std::runtime_error("Cannot open file: " + filename);
 	}
 
-	reset();  // Clear any existing data
+	// The population is replaced only after the whole file has been read successfully
+	std::vector<EAIndividual> individuals;
 
 	std::string line;
 
@@ -260,63 +294,33 @@ void EAPopulation::readFromCSV(const std::string& filename) {
 	}
 
 	while (std::getline(inFile, line)) {
-		std::stringstream ss(line);
-		std::string token;
 
-		// Read ID
-		std::getline(ss, token, ',');
-		if (token.empty()) {
-			throw std::runtime_error("Missing ID value in CSV");
-		}
-		unsigned int id = std::stoi(token);
-		// Read objective function value
-		std::getline(ss, token, ',');
-		if (token.empty()) {
-			throw std::runtime_error("Missing objective function value in CSV");
+		// Every row written by writeToCSV ends with a newline
+		if (inFile.eof()) {
+			throw std::runtime_error("Incomplete last row in CSV");
 		}
-		double objectiveFunctionValue = std::stod(token);
 
-		// Read fitness value
-		std::getline(ss, token, ',');
-		if (token.empty()) {
-			throw std::runtime_error("Missing fitness value in CSV");
-		}
-		double fitnessValue = std::stod(token);
-
-		// Read reproduction probability
-		std::getline(ss, token, ',');
-		if (token.empty()) {
-			throw std::runtime_error("Missing reproduction probability in CSV");
-		}
-		double reproductionProbability = std::stod(token);
+		std::stringstream ss(line);
 
-		// Read death probability
-		std::getline(ss, token, ',');
-		if (token.empty()) {
-			throw std::runtime_error("Missing death probability in CSV");
-		}
-		double deathProbability = std::stod(token);
+		unsigned int id = readIdFromCSVRow(ss);
+		double objectiveFunctionValue = readValueFromCSVRow(ss, "objective function value");
+		double fitnessValue = readValueFromCSVRow(ss, "fitness value");
+		double reproductionProbability = readValueFromCSVRow(ss, "reproduction probability");
+		double deathProbability = readValueFromCSVRow(ss, "death probability");
 
 		// Read genes
-		std::vector<double> genes;
+		vec geneVector(dimension);
 		for (unsigned int i = 0; i < dimension; ++i) {
-			std::getline(ss, token, ',');
-			if (token.empty()) {
-				throw std::runtime_error("Missing gene value in CSV");
-			}
-			genes.push_back(std::stod(token));
+			geneVector(i) = readValueFromCSVRow(ss, "gene value");
+		}
+		std::string rest;
+		if (std::getline(ss, rest)) {
+			throw std::runtime_error("Too many values in a row of the CSV file");
 		}
-
 
 		// Create an individual and add to population
 		EAIndividual individual(dimension);
 
-		// Initialize the genes vector correctly
-		vec geneVector(genes.size());
-		for (size_t i = 0; i < genes.size(); ++i) {
-			geneVector(i) = genes[i];
-		}
-
 		individual.setId(id);
 		individual.initializeGenes(geneVector);
 		individual.setObjectiveFunctionValue(objectiveFunctionValue);
@@ -324,9 +328,12 @@ void EAPopulation::readFromCSV(const std::string& filename) {
 		individual.setReproductionProbabilityValue(reproductionProbability);
 		individual.setDeathProbabilityValue(deathProbability);
 
-		addIndividual(individual);
+		individuals.push_back(individual);
 	}
 
+	reset();
+	addAGroupOfIndividuals(individuals);
+
 	inFile.close();
 
 }
-- 
2.43.0


From 429c470910e152822855e1ce111fc66ee0a86ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:23 +0000
Subject: [PATCH 51/69] fix: the linear model loads a file with a wrong number
 of weights

---
 src/SurrogateModels/linear_regression.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/SurrogateModels/linear_regression.cpp b/src/SurrogateModels/linear_regression.cpp
index 3b4db04..0cbf304 100644
--- a/src/SurrogateModels/linear_regression.cpp
+++ b/src/SurrogateModels/linear_regression.cpp
@@ -72,7 +72,14 @@ void LinearModel::saveHyperParameters(void) const  {
 void LinearModel::loadHyperParameters(void){
 
 	assert(!filenameHyperparameters.empty());
-	weights.readFromCSV(filenameHyperparameters);
+
+	vec loadBuffer;
+	loadBuffer.readFromCSV(filenameHyperparameters);
+
+	if (loadBuffer.getSize() != dimension + 1) {
+		throw std::runtime_error("LinearModel::loadHyperParameters: Number of values in the file " + filenameHyperparameters + " does not match the number of weights.");
+	}
+	weights = loadBuffer;
 
 }
 
-- 
2.43.0


From bb6befafbb6a2eb5bf28611f18ebb311e891284d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:06 +0000
Subject: [PATCH 52/69] fix: box constraints set a second time are appended to
 the first ones

---
 src/API/cppAPI.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 9f2c0e8..2268ac5 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -93,11 +93,11 @@ void RobustDesignOptimizer::setBoxConstraints(double *lb, double *ub){
 			throw std::invalid_argument("Box constraints are not set properly");
 
 		}
-
-		lowerBounds.push_back(lb[i]);
-		upperBounds.push_back(ub[i]);
 	}
 
+	lowerBounds.assign(lb, lb + dimension);
+	upperBounds.assign(ub, ub + dimension);
+
 	Bounds boxConstraints;
 	boxConstraints.setDimension(dimension);
 	boxConstraints.setBounds(lowerBounds,upperBounds);
-- 
2.43.0


From a7ccb8dce3a32687d07732db6e58143467f31b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:06 +0000
Subject: [PATCH 53/69] fix: settings of the programming interface are lost or
 mixed up unless they are made in one particular order

---
 src/API/INCLUDE/rodeo.h |  4 +++
 src/API/cppAPI.cpp      | 70 +++++++++++++++++++++++------------------
 2 files changed, 44 insertions(+), 30 deletions(-)

diff --git a/src/API/INCLUDE/rodeo.h b/src/API/INCLUDE/rodeo.h
index a323abc..414e9cf 100644
--- a/src/API/INCLUDE/rodeo.h
+++ b/src/API/INCLUDE/rodeo.h
@@ -25,12 +25,14 @@ private:
 	bool startWithDoE = false;
 	unsigned int numberOfSamplesForDoE = 0;
 
+	string objectiveFunctionName;
 	string objectiveFunctionTrainingFilename;
 	vector<string> constraintsTrainingDataFilename;
 
 	bool isDimensionSpecified = false;
 	bool isObjectiveFunctionSpecified = false;
 	bool areBoxConstraintsSpecified = false;
+	bool isOptimizerSetUp = false;
 
 	vector<double> lowerBounds;
 	vector<double> upperBounds;
@@ -38,6 +40,7 @@ private:
 	objectiveFunctionPtrType objectiveFunctionPtr;
 
 	vector<objectiveFunctionPtrType> constraintFunctionPtr;
+	vector<ConstraintDefinition> constraintDefinitions;
 
 	mat samplesInput;
 
@@ -49,6 +52,7 @@ private:
 	void performDoE(void);
 	void performDoEForConstraints(void);
 	void checkOptimizationSettings();
+	void setUpOptimizer(void);
 	void generateDoESamplesInput();
 
 public:
diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 2268ac5..a328ebb 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -98,11 +98,6 @@ void RobustDesignOptimizer::setBoxConstraints(double *lb, double *ub){
 	lowerBounds.assign(lb, lb + dimension);
 	upperBounds.assign(ub, ub + dimension);
 
-	Bounds boxConstraints;
-	boxConstraints.setDimension(dimension);
-	boxConstraints.setBounds(lowerBounds,upperBounds);
-
-	optimizer.setBoxConstraints(boxConstraints);
 	areBoxConstraintsSpecified = true;
 
 
@@ -142,22 +137,46 @@ void RobustDesignOptimizer::setObjectiveFunction(ObjectiveFunctionPtr function,
 
 
 	objectiveFunctionPtr = function;
+	objectiveFunctionName = functionName;
+	objectiveFunctionTrainingFilename = filename;
+
+	isObjectiveFunctionSpecified = true;
+
+}
+
+// hands the final settings over to the optimizer
+void RobustDesignOptimizer::setUpOptimizer(void) {
 
 	ObjectiveFunction objectiveFunctionToAdd;
 	objectiveFunctionToAdd.setDimension(dimension);
-	objectiveFunctionToAdd.setFunctionPtr(function);
+	objectiveFunctionToAdd.setFunctionPtr(objectiveFunctionPtr);
 	ObjectiveFunctionDefinition objectiveFunctionDefinition;
-	objectiveFunctionTrainingFilename = filename;
-	objectiveFunctionDefinition.nameHighFidelityTrainingData = filename;
-	objectiveFunctionDefinition.name = functionName;
-
-
+	objectiveFunctionDefinition.nameHighFidelityTrainingData = objectiveFunctionTrainingFilename;
+	objectiveFunctionDefinition.name = objectiveFunctionName;
 	objectiveFunctionToAdd.setParametersByDefinition(objectiveFunctionDefinition);
 
 	optimizer.addObjectFunction(objectiveFunctionToAdd);
 
-	isObjectiveFunctionSpecified = true;
+	for (unsigned int i = 0; i < numberOfConstraints; i++) {
+		ConstraintFunction constraint;
+		constraint.setFunctionPtr(constraintFunctionPtr[i]);
 
+		ObjectiveFunctionDefinition definition;
+		definition.nameHighFidelityTrainingData = constraintsTrainingDataFilename[i];
+		definition.name = constraintDefinitions[i].constraintName;
+		constraint.setParametersByDefinition(definition);
+
+		constraint.setConstraintDefinition(constraintDefinitions[i]);
+		constraint.setDimension(dimension);
+		optimizer.addConstraint(constraint);
+	}
+
+	Bounds boxConstraints;
+	boxConstraints.setDimension(dimension);
+	boxConstraints.setBounds(lowerBounds, upperBounds);
+	optimizer.setBoxConstraints(boxConstraints);
+
+	isOptimizerSetUp = true;
 }
 
 // Helper function to trim whitespace from a string
@@ -218,18 +237,6 @@ void RobustDesignOptimizer::addConstraint(ObjectiveFunctionPtr function, std::st
 	constraintFunctionPtr.push_back(function);
 	constraintsTrainingDataFilename.push_back(filename);
 
-	// Create a new constraint function object
-	ConstraintFunction constraint;
-	constraint.setFunctionPtr(function);
-
-	// Set up the objective function definition
-	ObjectiveFunctionDefinition definition;
-	definition.nameHighFidelityTrainingData = filename;
-	definition.name = exp.name;
-
-	// Assign the definition to the constraint
-	constraint.setParametersByDefinition(definition);
-
 	// Define the constraint's inequality and value
 	ConstraintDefinition constraintExpression;
 	constraintExpression.constraintName = exp.name;
@@ -238,12 +245,8 @@ void RobustDesignOptimizer::addConstraint(ObjectiveFunctionPtr function, std::st
 	constraintExpression.ID = numberOfConstraints;
 	numberOfConstraints++;
 
-	// Set the constraint's definition and dimension
-	constraint.setConstraintDefinition(constraintExpression);
-	constraint.setDimension(dimension);
-
-	// Add the constraint to the optimizer
-	optimizer.addConstraint(constraint);
+	// The constraint is added to the optimizer when all settings are known
+	constraintDefinitions.push_back(constraintExpression);
 
 	// Optionally, add logging here to record the success of adding the constraint
 	// DriverLogger::getInstance().log(INFO, "Constraint '" + exp.name + "' added successfully.");
@@ -382,6 +385,9 @@ void RobustDesignOptimizer::checkOptimizationSettings() {
 	if (!isObjectiveFunctionSpecified) {
 		throw std::invalid_argument("Objective function is not specified");
 	}
+	if (lowerBounds.size() != dimension) {
+		throw std::invalid_argument("Box constraints do not match the problem dimension");
+	}
 }
 
 void RobustDesignOptimizer::run(void){
@@ -401,6 +407,10 @@ void RobustDesignOptimizer::run(void){
 		performDoE();
 	}
 
+	if(!isOptimizerSetUp){
+		setUpOptimizer();
+	}
+
 	//	std::cout<<"Running optimization...\n";
 	optimizer.performEfficientGlobalOptimization();
 
-- 
2.43.0


From add5b63add59e22af709501fd58429da6c858f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:06 +0000
Subject: [PATCH 54/69] fix: setNameOfTrainingDataFile uses the name of the
 study as file name

---
 src/API/cppAPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index a328ebb..7302fe6 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -108,7 +108,7 @@ void RobustDesignOptimizer::setNameOfTrainingDataFile(std::string filename){
 	if(filename.empty()){
 		throw std::invalid_argument("Empty file name for the training data");
 	}
-	objectiveFunctionTrainingFilename = name;
+	objectiveFunctionTrainingFilename = filename;
 }
 
 void RobustDesignOptimizer::setDimension(unsigned int dim){
-- 
2.43.0


From 0584cb0e4f387c1cfa6fc41750090118c9ef490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:07 +0000
Subject: [PATCH 55/69] fix: samples of the design of experiments are written
 with fewer digits than those of the optimization

---
 src/API/cppAPI.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 7302fe6..8e68248 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -301,7 +301,7 @@ void RobustDesignOptimizer::performDoEForConstraints(void){
 
         try {
             // Save all training data for this constraint at once, after collecting all rows
-            trainingDataForConstraint.saveAsCSV(constraintsTrainingDataFilename[iConstraint]);
+            trainingDataForConstraint.saveAsCSV(constraintsTrainingDataFilename[iConstraint], 12);
         } catch (const std::exception& e) {
             std::cerr << "Error saving training data for constraint " << iConstraint
                       << " to file: " << e.what() << std::endl;
@@ -357,7 +357,7 @@ void RobustDesignOptimizer::performDoE(void) {
 
 		try {
 			// Save the training data
-			trainingData.saveAsCSV(objectiveFunctionTrainingFilename);
+			trainingData.saveAsCSV(objectiveFunctionTrainingFilename, 12);
 		} catch (const std::exception &e) {
 			throw std::runtime_error("DoE process will be killed.");
 		}
-- 
2.43.0


From 7f7c0bbf8cc88596e45b13a1878b8482bc6c9acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 56/69] fix: the name of the study in the configuration file is
 ignored

---
 src/Driver/driver_xml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 3e9eb5b..d68af7e 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -614,7 +614,7 @@ void Driver::setNumberOfThreadsOptimizationStudy(void) {
 
 void Driver::setNameOptimizationStudy() {
 	string name = getConfigKeyValueString(keywordsGeneral, "name");
-	if (name.empty()) {
+	if (!name.empty()) {
 		optimizationStudy.setName(name);
 	} else {
 		optimizationStudy.setName("OptimizationStudy");
-- 
2.43.0


From 2f9ba61df1f63f0d3ffd979b162682a8ab751878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 57/69] fix: the number of training iterations of a constraint
 is taken from the objective function's section

---
 src/Driver/driver_xml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index d68af7e..7d78559 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -318,7 +318,7 @@ void Driver::setConstraintUDF(ConstraintFunction &constraint) {
 void Driver::setConstraintNumberOfTrainingIterations(ConstraintFunction &constraint) {
 
 	int numberOfTrainingIterations = getConfigKeyValueInt(
-			keywordsObjectiveFunction, "number_of_training_iterations");
+			keywordsConstraintFunction, "number_of_training_iterations");
 
 	if(numberOfTrainingIterations != -10000000){
 
-- 
2.43.0


From 5029fe9c950e205995adda428eb3067341c0450c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 58/69] fix: a missing bound or increment of a parameter is
 silently replaced by 1e-13

---
 src/Driver/driver_xml.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 7d78559..c0eb2c0 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -506,6 +506,12 @@ void Driver::readOptimizationParameters() {
 		// Log the parameter being processed
 		DriverLogger::getInstance().log(INFO, "Processing parameter: " + name + " of type: " + type);
 
+		for (const char *key : {"lower_bound", "upper_bound"}) {
+			if (getStringValueFromXML(param, key).empty()) {
+				throw std::runtime_error("Driver::readOptimizationParameters: '" + std::string(key) + "' is missing for parameter: " + name);
+			}
+		}
+
 		double lb = getDoubleValueFromXML(param, "lower_bound");
 		double ub = getDoubleValueFromXML(param, "upper_bound");
 
@@ -520,7 +526,7 @@ void Driver::readOptimizationParameters() {
 		// Special handling for discrete and int types
 		if (type == "discrete" || type == "int") {
 			// Ensure the increment is defined, greater than 0, and less than or equal to ub - lb
-			if (inc <= 0 || inc > (ub - lb)) {
+			if (getStringValueFromXML(param, "increment").empty() || inc <= 0 || inc > (ub - lb)) {
 				DriverLogger::getInstance().log(ERROR, "Invalid increment for 'discrete' or 'int' parameter '" + name + "': increment must be > 0 and <= (upper_bound - lower_bound).");
 				throw std::runtime_error("Driver::readOptimizationParameters: Invalid increment for 'discrete' or 'int' parameter: " + name);
 			}
-- 
2.43.0


From 76a9e7afa7d57aab5efad38a60a2c596d2a92e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 59/69] fix: malformed numbers in the configuration file are
 accepted as another number

---
 src/Driver/INCLUDE/string_functions.hpp |  3 +++
 src/Driver/driver_xml.cpp               |  2 +-
 src/Driver/string_functions.cpp         | 32 +++++++++++++++++++++++++
 src/Driver/xml_functions.cpp            |  6 ++---
 4 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/Driver/INCLUDE/string_functions.hpp b/src/Driver/INCLUDE/string_functions.hpp
index df4328c..b4de014 100644
--- a/src/Driver/INCLUDE/string_functions.hpp
+++ b/src/Driver/INCLUDE/string_functions.hpp
@@ -14,6 +14,9 @@ bool checkIfOn(const std::string& message);
 bool checkIfOff(const std::string& message);
 
 std::string removeSpacesFromString(std::string );
+std::string trimSpaces(const std::string& inputString);
+double convertToDouble(const std::string& text);
+int convertToInteger(const std::string& text);
 
 
 std::string extractContentBetweenKeys(const std::string& input, const std::string& key);
diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index c0eb2c0..6b33c99 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -292,7 +292,7 @@ void Driver::setConstraintValue(ConstraintDefinition &constraintDefinition) {
 	}
 	double value = 0.0;
 	try {
-		value = std::stod(constraint_value); // Attempt to convert string to double
+		value = convertToDouble(constraint_value); // Attempt to convert string to double
 
 	} catch (const std::invalid_argument& e) {
 		throw std::invalid_argument("Invalid argument. Unable to convert string to double. Check configuration file");
diff --git a/src/Driver/string_functions.cpp b/src/Driver/string_functions.cpp
index 25e8b2d..f6b0ed9 100644
--- a/src/Driver/string_functions.cpp
+++ b/src/Driver/string_functions.cpp
@@ -4,6 +4,7 @@
 #include <stdexcept>
 #include <algorithm>
 #include <unordered_set>
+#include <cmath>
 using std::string;
 
 
@@ -85,6 +86,37 @@ std::string removeSpacesFromString(std::string inputString){
 }
 
 
+std::string trimSpaces(const std::string& inputString){
+
+	auto isNotSpace = [](unsigned char c){ return std::isspace(c) == 0; };
+	auto first = std::find_if(inputString.begin(), inputString.end(), isNotSpace);
+	auto last = std::find_if(inputString.rbegin(), inputString.rend(), isNotSpace).base();
+	return first < last ? std::string(first, last) : std::string();
+}
+
+double convertToDouble(const std::string& text){
+
+	std::string number = trimSpaces(text);
+	size_t length = 0;
+	double value = std::stod(number, &length);
+
+	if(length != number.size() || std::isnan(value)){
+		throw std::invalid_argument("Not a number: " + number);
+	}
+	return value;
+}
+
+int convertToInteger(const std::string& text){
+
+	std::string number = trimSpaces(text);
+	size_t length = 0;
+	int value = std::stoi(number, &length);
+
+	if(length != number.size()){
+		throw std::invalid_argument("Not an integer: " + number);
+	}
+	return value;
+}
 
 
 
diff --git a/src/Driver/xml_functions.cpp b/src/Driver/xml_functions.cpp
index 2577bc8..a1f95f7 100644
--- a/src/Driver/xml_functions.cpp
+++ b/src/Driver/xml_functions.cpp
@@ -128,12 +128,10 @@ double getDoubleValueFromXML(const std::string& xmlString, const std::string& ke
 	// Extract substring containing value
 	std::string valueString = xmlString.substr(keywordStart + keyword.length() + 2, keywordEnd - keywordStart - keyword.length() - 2);
 
-	valueString = removeSpacesFromString(valueString);
-
 	double value;
 	try
 	{
-		value = std::stod(valueString);
+		value = convertToDouble(valueString);
 	}
 	catch (...)
 	{
@@ -211,7 +209,7 @@ int getIntegerValueFromXML(const std::string& xmlString, const std::string& keyw
 
 	try
 	{
-		value = std::stoi(valueString);
+		value = convertToInteger(valueString);
 	}
 	catch (...)
 	{
-- 
2.43.0


From fad51219c40978ea58cd0b19ee6cd02b532f8639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 60/69] fix: blanks within names and values of the
 configuration file are dropped, which makes another name or value of them

---
 src/Driver/xml_functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Driver/xml_functions.cpp b/src/Driver/xml_functions.cpp
index a1f95f7..f870221 100644
--- a/src/Driver/xml_functions.cpp
+++ b/src/Driver/xml_functions.cpp
@@ -174,7 +174,7 @@ string getStringValueFromXML(const std::string& xmlString, const std::string& ke
 	size_t valueStart = keywordStart + keyword.length() + 2;
 	result = xmlString.substr(valueStart, keywordEnd - valueStart);
 
-	result = removeSpacesFromString(result);
+	result = trimSpaces(result);
 
 	return result;
 }
-- 
2.43.0


From 22a099f07b94bfcb0ed3f6c103c961abc76b6ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 61/69] fix: negative numbers of iterations and threads in the
 configuration file are converted to huge ones

---
 src/Driver/driver_xml.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 6b33c99..8029144 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -214,6 +214,10 @@ void Driver::setObjectiveFunctionNumberOfTrainingIterations() {
 
 	if(numberOfTrainingIterations != NONEXISTINGINTKEYWORD){
 
+		if(numberOfTrainingIterations <= 0){
+			throw std::invalid_argument("number of training iterations must be a positive integer. Check configuration file");
+		}
+
 		objectiveFunction.setNumberOfTrainingIterationsForSurrogateModel(
 				numberOfTrainingIterations);
 	}
@@ -322,6 +326,10 @@ void Driver::setConstraintNumberOfTrainingIterations(ConstraintFunction &constra
 
 	if(numberOfTrainingIterations != -10000000){
 
+		if(numberOfTrainingIterations <= 0){
+			throw std::invalid_argument("number of training iterations must be a positive integer. Check configuration file");
+		}
+
 		constraint.setNumberOfTrainingIterationsForSurrogateModel(
 				numberOfTrainingIterations);
 
@@ -601,6 +609,10 @@ void Driver::setMaxNumberOfInnerIterationsOptimizationStudy(void) {
 	int maxiter = getConfigKeyValueInt(keywordsGeneral, "max_number_of_inner_iterations");
 
 	if(maxiter != -10000000){
+
+		if(maxiter <= 0){
+			throw std::invalid_argument("max number of inner iterations must be a positive integer. Check configuration file");
+		}
 		optimizationStudy.setMaximumNumberOfInnerIterations(maxiter);
 	}
 
@@ -613,6 +625,10 @@ void Driver::setNumberOfThreadsOptimizationStudy(void) {
 
 	if(N != -10000000){
 
+		if(N <= 0){
+			throw std::invalid_argument("number of threads must be a positive integer. Check configuration file");
+		}
+
 		optimizationStudy.setNumberOfThreads(N);
 	}
 
-- 
2.43.0


From c6f235335244395b58c0e4bf72aae6cec152d5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 62/69] fix: entries of a constraint on the line of the closing
 tag are lost

---
 src/Driver/driver_xml.cpp | 34 ++++------------------------------
 1 file changed, 4 insertions(+), 30 deletions(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 8029144..8c4b81e 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -1059,44 +1059,18 @@ std::string Driver::readASegmentFromXMLFile(string keyword) const {
 
 
 std::vector<std::string> Driver::readConstraintFunctionsFromXML(void) const {
-	std::vector<std::string> constraintFunctions;
 	std::ifstream file(configFilename);
-	std::string line;
-	bool insideConstraintFunction = false;
-	std::string currentConstraintFunction;
 
 	// Check if the file was opened successfully
 	if (!file.is_open()) {
 		std::cerr << "Error opening file: " << configFilename << std::endl;
-		return constraintFunctions;
+		return std::vector<std::string>();
 	}
 
-	// Read the file line by line
-	while (std::getline(file, line)) {
-		// Trim leading and trailing whitespaces from the line (if needed)
-		line.erase(0, line.find_first_not_of(" \t"));  // Left trim
-		line.erase(line.find_last_not_of(" \t") + 1);  // Right trim
-
-		// Start of a constraint function
-		if (line.find("<constraint_function>") != std::string::npos) {
-			insideConstraintFunction = true;
-			currentConstraintFunction.clear();
-		}
-
-		// End of a constraint function
-		if (line.find("</constraint_function>") != std::string::npos) {
-			insideConstraintFunction = false;
-			constraintFunctions.push_back(currentConstraintFunction);
-		}
-
-		// Collect lines inside the constraint function block
-		if (insideConstraintFunction) {
-			currentConstraintFunction += line + "\n";  // Preserve line breaks
-		}
-	}
+	std::stringstream buffer;
+	buffer << file.rdbuf();
 
-	file.close();  // Close the file when done
-	return constraintFunctions;
+	return extractContents(buffer.str(), "constraint_function");
 }
 
 void Driver::runOptimization(void) {
-- 
2.43.0


From da938fd738ef6685f6878b26878fecb449e8675e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 63/69] fix: a constraint without closing tag is silently left
 out

---
 src/Driver/driver_xml.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 8c4b81e..89d41f6 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -1070,7 +1070,18 @@ std::vector<std::string> Driver::readConstraintFunctionsFromXML(void) const {
 	std::stringstream buffer;
 	buffer << file.rdbuf();
 
-	return extractContents(buffer.str(), "constraint_function");
+	const std::string text = buffer.str();
+	std::vector<std::string> constraintFunctions = extractContents(text, "constraint_function");
+
+	size_t numberOfStartTags = 0;
+	for (size_t pos = text.find("<constraint_function>"); pos != std::string::npos; pos = text.find("<constraint_function>", pos + 1)) {
+		numberOfStartTags++;
+	}
+	if (numberOfStartTags != constraintFunctions.size()) {
+		throw std::invalid_argument("Closing tag for constraint_function not found. Check configuration file");
+	}
+
+	return constraintFunctions;
 }
 
 void Driver::runOptimization(void) {
-- 
2.43.0


From ddf2b6fe255e8dde9db621861d5a127070706b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 64/69] fix: entries within comments of the configuration file
 are executed

---
 src/Driver/INCLUDE/string_functions.hpp |  1 +
 src/Driver/driver_xml.cpp               |  4 ++--
 src/Driver/string_functions.cpp         | 14 ++++++++++++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/Driver/INCLUDE/string_functions.hpp b/src/Driver/INCLUDE/string_functions.hpp
index b4de014..b39ab91 100644
--- a/src/Driver/INCLUDE/string_functions.hpp
+++ b/src/Driver/INCLUDE/string_functions.hpp
@@ -14,6 +14,7 @@ bool checkIfOn(const std::string& message);
 bool checkIfOff(const std::string& message);
 
 std::string removeSpacesFromString(std::string );
+std::string removeComments(const std::string& text);
 std::string trimSpaces(const std::string& inputString);
 double convertToDouble(const std::string& text);
 int convertToInteger(const std::string& text);
diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 89d41f6..53db379 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -1049,7 +1049,7 @@ std::string Driver::readASegmentFromXMLFile(string keyword) const {
 	std::stringstream buffer;
 	buffer << file.rdbuf(); // Read the entire file into the stringstream
 
-	std::string filetext =  buffer.str(); // Convert stringstream to std::string and return
+	std::string filetext = removeComments(buffer.str()); // Convert stringstream to std::string and return
 
 
 	return extractContentBetweenKeys(filetext, keyword);
@@ -1070,7 +1070,7 @@ std::vector<std::string> Driver::readConstraintFunctionsFromXML(void) const {
 	std::stringstream buffer;
 	buffer << file.rdbuf();
 
-	const std::string text = buffer.str();
+	const std::string text = removeComments(buffer.str());
 	std::vector<std::string> constraintFunctions = extractContents(text, "constraint_function");
 
 	size_t numberOfStartTags = 0;
diff --git a/src/Driver/string_functions.cpp b/src/Driver/string_functions.cpp
index f6b0ed9..a166646 100644
--- a/src/Driver/string_functions.cpp
+++ b/src/Driver/string_functions.cpp
@@ -86,6 +86,20 @@ std::string removeSpacesFromString(std::string inputString){
 }
 
 
+std::string removeComments(const std::string& text){
+
+	std::string result = text;
+	size_t start;
+	while ((start = result.find("<!--")) != std::string::npos) {
+		size_t end = result.find("-->", start + 4);
+		if (end == std::string::npos) {
+			throw std::runtime_error("End of comment not found.");
+		}
+		result.erase(start, end + 3 - start);
+	}
+	return result;
+}
+
 std::string trimSpaces(const std::string& inputString){
 
 	auto isNotSpace = [](unsigned char c){ return std::isspace(c) == 0; };
-- 
2.43.0


From 2e112b5bd7288b317f4277cbff734c3211a212ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 65/69] fix: an unsupported type of surrogate model leads to
 the use of an uninitialised pointer

---
 src/ObjectiveFunctions/objective_function.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ObjectiveFunctions/objective_function.cpp b/src/ObjectiveFunctions/objective_function.cpp
index 149617e..7cab4cb 100644
--- a/src/ObjectiveFunctions/objective_function.cpp
+++ b/src/ObjectiveFunctions/objective_function.cpp
@@ -236,9 +236,12 @@ void ObjectiveFunction::bindSurrogateModelSingleFidelity() {
 	if (definition.modelHiFi == ORDINARY_KRIGING) {
 		bindWithOrdinaryKrigingModel();
 	}
-	if (definition.modelHiFi == UNIVERSAL_KRIGING) {
+	else if (definition.modelHiFi == UNIVERSAL_KRIGING) {
 		bindWithUniversalKrigingModel();
 	}
+	else {
+		throw std::invalid_argument("The surrogate model type is not supported.");
+	}
 
 }
 
-- 
2.43.0


From a876a61bc9e824f5f7aa67d9b1e35502ea33523c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 66/69] fix: the unknown constraint type TT is accepted

---
 src/Driver/driver_xml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 53db379..4969d75 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -274,7 +274,7 @@ void Driver::setConstraintType(ConstraintDefinition &constraintDefinition) {
 	if (isEqual(constraint_type, "lt") || isEqual(constraint_type, "LT")) {
 		constraintDefinition.inequalityType = "<";
 	} else if (isEqual(constraint_type, "gt")
-			|| isEqual(constraint_type, "TT")) {
+			|| isEqual(constraint_type, "GT")) {
 		constraintDefinition.inequalityType = ">";
 	} else {
 
-- 
2.43.0


From aa62acd9e42345d6f265a547252ba0454ae357e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:08 +0000
Subject: [PATCH 67/69] fix: the refined candidate carries the estimates of a
 neighbouring point

---
 src/Optimizers/optimization.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index 2e1378c..259f923 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -850,11 +850,11 @@ DesignForBayesianOptimization Optimizer::maximizeAcqusitionFunctionGradientBased
 
 		//		printInfoToLog("Gradient search iteration = " + std::to_string(iterGradientSearch));
 
-		grad = calculateGradientOfAcquisitionFunction(bestDesign);
-
-		/* save the design vector */
+		/* save the design, the calculation of the gradient leaves the estimates of other points in it */
 		DesignForBayesianOptimization dvLineSearchSave = bestDesign ;
 
+		grad = calculateGradientOfAcquisitionFunction(bestDesign);
+
 		//		printInfoToLog("Starting line search...");
 		stepSize = stepSize0;
 
-- 
2.43.0


From 092b8debc51badb0f69683ad24bc81964ede9f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:12 +0000
Subject: [PATCH 68/69] fix: models are trained in every iteration when
 setHowOftenTrainModels(1) is used (they were never trained)

---
 src/Optimizers/efficient_global_optimization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimizers/efficient_global_optimization.cpp b/src/Optimizers/efficient_global_optimization.cpp
index a0ad649..dfcab5b 100644
--- a/src/Optimizers/efficient_global_optimization.cpp
+++ b/src/Optimizers/efficient_global_optimization.cpp
@@ -15,7 +15,7 @@ void Optimizer::performEfficientGlobalOptimizationOnlyWithFunctionalValues(void)
 		printIterationNumber();
 
 
-		if(outerIterationNumber%howOftenTrainModels == 1) {
+		if((outerIterationNumber-1)%howOftenTrainModels == 0) {
 			initializeSurrogates();
 			trainSurrogates();
 		}
-- 
2.43.0


From 3f09db973f026940f174fe26777f5889acbdb877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:12 +0000
Subject: [PATCH 69/69] fix: setHowOftenTrainModels(0) is rejected (the run
 ended with a division by zero)

---
 src/Optimizers/optimization_setter_getters.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Optimizers/optimization_setter_getters.cpp b/src/Optimizers/optimization_setter_getters.cpp
index a264f3f..ec6a95a 100644
--- a/src/Optimizers/optimization_setter_getters.cpp
+++ b/src/Optimizers/optimization_setter_getters.cpp
@@ -109,6 +109,9 @@ void Optimizer::setDimension(unsigned int dim){
 
 
 void Optimizer::setHowOftenTrainModels(unsigned int value){
+	if(value == 0){
+		throw std::invalid_argument("The number of iterations between two model trainings must be greater than zero.");
+	}
 	howOftenTrainModels = value;
 }
 
-- 
2.43.0

