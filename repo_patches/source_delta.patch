From 9d3aef976136c6652817b3cdd271eae5ea933cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 01/27] fix: simplexTree starts empty and can be cleared and
 refilled

The root pointer and the node count were never initialised; clear()
dereferenced the root of an empty tree, wrote through a node it had just
freed and kept the old node count; and edges added after a query were
never sorted again.
---
 Complex/simplexTree.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Complex/simplexTree.cpp b/Complex/simplexTree.cpp
index 67650d2..92009e2 100644
--- a/Complex/simplexTree.cpp
+++ b/Complex/simplexTree.cpp
@@ -11,6 +11,8 @@ simplexTree::simplexTree(double _maxEpsilon, std::vector<std::vector<double>> _d
 	maxDimension = _maxDim;
 	maxEpsilon = _maxEpsilon;
 	simplexType = "simplexTree";
+	head = nullptr;
+	nodeCount = 0;
 	return;
 }
 
@@ -283,6 +285,9 @@ void simplexTree::insert(std::vector<double>&) {
 	std::set<unsigned> tempSet = {curNode->index};
 	runningVectorIndices.push_back(runningVectorCount);
 
+	//The edge lists are no longer sorted once new simplices are added
+	isSorted = false;
+
 	//Check if this is the first node (i.e. head)
 	//	If so, initialize the head node
 	if(head == nullptr){
@@ -543,7 +548,6 @@ bool simplexTree::deletion(treeNode* removalEntry) {
 	deletionCount++;
 	delete curNode;
 	nodeCount--;
-	removalEntry->child = nullptr;
 	return false;
 }
 
@@ -564,8 +568,11 @@ std::vector<std::pair<double, std::vector<unsigned>>> simplexTree::getd0Pairs(){
 void simplexTree::clear(){
 
 	//Clear the simplexTree structure
-	deletion(head);
+	if(head != nullptr)
+		deletion(head);
 	head = nullptr;
+	nodeCount = 0;
+	isSorted = false;
 
 	//Clear the weighed edge graph
 	for(auto z : weightEdgeGraph){
-- 
2.43.0


From ed442d46d74aad4dba5f2bff5943a4395b48f3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 02/27] fix: indSimplexTree starts empty, stays in bounds and
 reports current simplices

The root pointer and the node count were never initialised, the per
dimension counters were written past their end above dimension two, the
indexed graph was not rebuilt after later insertions, and vertexCount
returned the number of simplices.
---
 Complex/indSimplexTree.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Complex/indSimplexTree.cpp b/Complex/indSimplexTree.cpp
index 6312fdf..6657b37 100644
--- a/Complex/indSimplexTree.cpp
+++ b/Complex/indSimplexTree.cpp
@@ -13,6 +13,8 @@ indSimplexTree::indSimplexTree(double _maxEpsilon, std::vector<std::vector<doubl
 	maxDim = _maxDim;
 	maxEpsilon = _maxEpsilon;
 	simplexType = "indSimplexTree";
+	head = nullptr;
+	nodeCount = 0;
 	return;
 }
 
@@ -192,6 +194,8 @@ void indSimplexTree::recurseInsert(indTreeNode* node, unsigned curIndex, int dep
 		std::set<unsigned> newSimp = simp;
 		newSimp.insert(node->index);
 		insNode->simplexSet = newSimp;
+		if(dimCounts.size() <= depth+1)
+			dimCounts.resize(depth+2, 0);
 		dimCounts[depth+1]++;
 		
 		//Get the largest weight of this simplex
@@ -359,6 +363,9 @@ void indSimplexTree::insert(std::vector<double>&) {
 	
 	std::set<unsigned> tempSet = {curNode->index};
 	
+	//The indexed graph has to be rebuilt once new simplices are added
+	isSorted = false;
+	
 	//Check if this is the first node (i.e. head)
 	//	If so, initialize the head node
 	if(head == nullptr){	
@@ -565,7 +572,7 @@ bool indSimplexTree::deletion(indTreeNode* removalEntry) {
 
 int indSimplexTree::vertexCount(){
 	//Return the number of vertices in the tree
-	return nodeCount;
+	return dimensions.size() > 0 ? dimensions[0].size() : 0;
 }
 
 int indSimplexTree::simplexCount(){
-- 
2.43.0


From a919756038bc45cd100dec9315e125386d2c40cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 03/27] fix: fastPersistence writes every bar, and the right
 ones

Without an edge below epsilon it read past the edge lists; with several
components left it wrote a single essential H0 bar; the walk over the
pivots ran past their end; and columns were reduced with their oldest
face as pivot, which pairs the wrong simplices.
---
 Pipes/fastPersistence.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index 3e5b9fd..aff5274 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -42,6 +42,10 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 	
 	if(edges.size() == 0)
 		return inData;
+	
+	//There may be no edge shorter than epsilon
+	if(edges.size() < 2)
+		edges.resize(2);
 		
 	std::vector<std::pair<double,double>> temp;
 	std::vector<std::vector<std::pair<double,double>>> ret;
@@ -143,9 +147,12 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 		bettis += "0,0," + std::to_string(z) + "\n";
 		
 	}
-	bettis += "0,0," + std::to_string(maxEpsilon) + "\n";
-	bettiBoundaryTableEntry des = { 0, 0, maxEpsilon, {} };
-	inData.bettiTable.push_back(des);
+	//Every connected component that is left never dies
+	for(auto z = mst.size(); z < edges[0].size(); z++){
+		bettis += "0,0," + std::to_string(maxEpsilon) + "\n";
+		bettiBoundaryTableEntry des = { 0, 0, maxEpsilon, {} };
+		inData.bettiTable.push_back(des);
+	}
 	
 	
 	
@@ -198,7 +205,7 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 					//		-The row is a pivot of the column, closing an interval
 					//		-The row is not a pivot, needing to be XOR with the stored pivot
 					//		-The row does not intersect (0 or cleared from previous dimension)
-					if(*pivotPointer != pivotIndex){
+					if(pivotPointer == pivots.end() || *pivotPointer != pivotIndex){
 						
 						//Check for intersection
 						bool isCoface = std::includes(column_to_reduce.first.begin(), column_to_reduce.first.end(), row_to_check.first.begin(), row_to_check.first.end());
@@ -216,7 +223,9 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 				//Reduce the column or store into the unordered map
 								
 				std::set<unsigned int>::iterator pIndex;
-				while((pIndex = cofaceList.begin()) != cofaceList.end()){
+				while(cofaceList.size() > 0){
+					//The pivot is the youngest face, i.e. the last one in order
+					pIndex = std::prev(cofaceList.end());
 					if(v.find(*pIndex) == v.end()){
 						v[*pIndex] = cofaceList;
 						nextPivots.push_back(columnIndex);		
-- 
2.43.0


From 0358fb1a4b31c628504bf84842bf3d1350d2bfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:47 +0000
Subject: [PATCH 04/27] fix: rows of one character are rows, and line endings
 are not data

parseDoubleVector dropped every row that was a single character long
and threw on a trailing comma before a carriage return or newline.
---
 Utils/readInput.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Utils/readInput.cpp b/Utils/readInput.cpp
index fb7285c..51ec364 100644
--- a/Utils/readInput.cpp
+++ b/Utils/readInput.cpp
@@ -61,11 +61,11 @@ std::vector<std::vector<double>> readInput::readCSV(std::string filename){
 bool readInput::parseDoubleVector(std::string line, std::vector<double> &row){
 	std::size_t pos = std::string::npos;
 	
-	// Replace whitespace in the current line
-	line = std::regex_replace(line, std::regex(" "), "");
+	// Replace whitespace (including line endings) in the current line
+	line = std::regex_replace(line, std::regex("[ \t\r\n]"), "");
 		
 	// Check if the line has a length (is not a blank line)
-	if(line.size() > 1){
+	if(line.size() > 0){
 			
 		// Iterate through each comma of the csv
 		while((pos = line.find_first_of(",")) != std::string::npos){
-- 
2.43.0


From c6c8d95efc7cee79cea9d4df52954f7d1119c677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:47 +0000
Subject: [PATCH 05/27] fix: the batch readers stop at a read error and at a
 short matrix

readCSV looped for ever when a read failed (the end is then never
reached) and readMAT returned rows of missing or repeated values when
the file ended early; both now report the failure and return no rows.
Blank lines in a matrix no longer swallow a value.
---
 Utils/readInput.cpp | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/Utils/readInput.cpp b/Utils/readInput.cpp
index 51ec364..64531a2 100644
--- a/Utils/readInput.cpp
+++ b/Utils/readInput.cpp
@@ -43,10 +43,9 @@ std::vector<std::vector<double>> readInput::readCSV(std::string filename){
 		return result;
 	}
 	// We are going to iterate through each line of the file until we reach the end
-	while(!file.eof()){
-		std::string line;			// Temporary (current) line
+	std::string line;				// Temporary (current) line
+	while(getline(file, line)){		// Read the next line from file
 		std::vector<double> tmp;	// Temporary (current) vector
-		getline(file, line);		// Read the next line from file
 		
 		if(parseDoubleVector(line, tmp)){
 			result.push_back(tmp);
@@ -54,6 +53,12 @@ std::vector<std::vector<double>> readInput::readCSV(std::string filename){
 		
 	}
 	
+	// Do not pass a part of the file off as all of it
+	if(file.bad()){
+		std::cout << "Failed to read file: " << filename << std::endl;
+		result.clear();
+	}
+	
 	return result;
 }
 
@@ -126,18 +131,21 @@ std::vector<std::vector<double>> readInput::readMAT(std::string filename){
 		std::vector<double> tmp;	//Temporary (current) vector
 		
 		for(int dim = 0; dim < dimensions; dim++){
-			getline(file, line);		//Read the next line from file
-			
-			// Replace whitespace in the current line
-			line = std::regex_replace(line, std::regex(" "), "");
-			
-			// Check if the line has a length (is not a blank line)
-			if(line.size() > 0){
-				
-				// Push the value found before the comma, remove from the line
-				tmp.push_back(std::stod(line));
+			//Read the next line from file that is not blank
+			do {
+				if(!getline(file, line)){
+					// Do not pass a part of the matrix off as all of it
+					std::cout << "Failed to read file: " << filename << std::endl;
+					result.clear();
+					return result;
+				}
 				
-			}
+				// Replace whitespace in the current line
+				line = std::regex_replace(line, std::regex("[ \t\r\n]"), "");
+			} while(line.size() == 0);
+			
+			// Push the value of the line
+			tmp.push_back(std::stod(line));
 		}
 		result.push_back(tmp);
 		
-- 
2.43.0


From 90d6f12e8089b283be3d774cd622a7faf4423299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:47 +0000
Subject: [PATCH 06/27] fix: streamRead delivers whole rows up to the end of
 the file

Lines longer than the buffer were torn into several rows, a blank line
ended the stream early, a line cut short by a read error was taken for a
row, and the file pointer was used before it was initialised.
---
 Utils/readInput.cpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/Utils/readInput.cpp b/Utils/readInput.cpp
index 64531a2..c11bc9e 100644
--- a/Utils/readInput.cpp
+++ b/Utils/readInput.cpp
@@ -19,7 +19,7 @@
 
 // readInput constructor, currently no needed information for the class constructor
 readInput::readInput(){
-
+	pFile = NULL;
 }
 
 // readCSV -> read in a csv formatted file from file input
@@ -169,14 +169,24 @@ bool readInput::streamRead(std::vector<double> &row){
 	if(pFile == NULL)
 		return false;
 	
-	//Check for EOF
-	if(fgets(streamBuffer, 1000, pFile) == NULL)
-		return false;
-	
-	//Parse our row
-	if(parseDoubleVector(streamBuffer, row))	
-		return true;
-	else
-		return false;
+	//Read until we have a row, skipping blank lines
+	while(true){
+		std::string line;
+		
+		//A line may be longer than the buffer; collect it until its end
+		while(fgets(streamBuffer, sizeof(streamBuffer), pFile) != NULL){
+			line += streamBuffer;
+			if(line.back() == '\n')
+				break;
+		}
+		
+		//Check for EOF; a line cut short by a failed read is not a row
+		if(ferror(pFile) || line.size() == 0)
+			return false;
+		
+		//Parse our row
+		if(parseDoubleVector(line, row))
+			return true;
+	}
 }
 
-- 
2.43.0


From 5dfb1c37486d8af1163b5d0624ef45bf736a1df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:15 +0000
Subject: [PATCH 07/27] fix: the writers report a file that could not be stored

Every writer returned true even when the file could not be opened,
written or closed; writeMAT read the first row of an empty matrix.
---
 Utils/writeOutput.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/Utils/writeOutput.cpp b/Utils/writeOutput.cpp
index 25165ea..9b06a7a 100644
--- a/Utils/writeOutput.cpp
+++ b/Utils/writeOutput.cpp
@@ -26,7 +26,7 @@ bool writeOutput::writeStats(std::string stats, std::string filename){
 	file << "PipeName,PhysExecutionTime,MemorySize,MemoryUnits,VertexCount,SimplexCount\n";
 	file << stats;
 	file.close();
-	return true;	
+	return file.good();	
 }
 
 bool writeOutput::writeBarcodes(std::vector<std::vector<double>> data, std::string filename){
@@ -53,7 +53,7 @@ bool writeOutput::writeCSV(std::vector<std::vector<double>> data, std::string fi
 		file << "\n";
 	}
 	file.close();
-	return true;
+	return file.good();
 }
 
 // writeCSV -> write a csv formatted file of data input
@@ -61,7 +61,7 @@ bool writeOutput::writeCSV(std::string data, std::string filename){
 	std::ofstream file(filename + ".csv");
 	file << data;
 	file.close();
-	return true;
+	return file.good();
 }
 
 // writeCSV -> write a csv formatted file of data input
@@ -78,7 +78,7 @@ bool writeOutput::writeCSV(std::vector<std::vector<double>> data, std::string fi
 		file << "\n";
 	}
 	file.close();
-	return true;
+	return file.good();
 	
 }
 
@@ -88,7 +88,7 @@ bool writeOutput::writeCSV(std::string data, std::string filename, std::string h
 	file << header;
 	file << data;
 	file.close();
-	return true;
+	return file.good();
 	
 }
 
@@ -97,7 +97,7 @@ bool writeOutput::writeCSV(std::string data, std::string filename, std::string h
 bool writeOutput::writeMAT(std::vector<std::vector<double>> data, std::string filename){
 	std::ofstream file(filename + ".mat");
 	
-	file << std::to_string(data.size()) << "\n" << std::to_string(data[0].size()) << "\n";
+	file << std::to_string(data.size()) << "\n" << std::to_string(data.size() > 0 ? data[0].size() : 0) << "\n";
 	for(auto row : data){
 		
 		for(auto column : row){
@@ -105,7 +105,7 @@ bool writeOutput::writeMAT(std::vector<std::vector<double>> data, std::string fi
 		}
 	}
 	file.close();
-	return true;
+	return file.good();
 }
 
 /*
-- 
2.43.0


From da22a65060f27f28283091a3e92751bb8023eec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:41 +0000
Subject: [PATCH 08/27] fix: k-means++ classifies every point and keeps its
 centroids finite

---
 Preprocessing/kMeansPlusPlus.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/Preprocessing/kMeansPlusPlus.cpp b/Preprocessing/kMeansPlusPlus.cpp
index 1239a0b..4b4df1b 100644
--- a/Preprocessing/kMeansPlusPlus.cpp
+++ b/Preprocessing/kMeansPlusPlus.cpp
@@ -31,6 +31,10 @@ pipePacket kMeansPlusPlus::runPreprocessor(pipePacket inData){
 		return inData;
 	}
 	
+	//Nothing to cluster
+	if(inData.originalData.size() == 0)
+		return inData;
+	
     //Arguments - num_clusters, num_iterations
     std::vector<std::vector<double>> centroids;     //Storing centroids
     std::vector<int> labels;                        //Storing labels for mapping data to centroids
@@ -64,7 +68,7 @@ pipePacket kMeansPlusPlus::runPreprocessor(pipePacket inData){
         int index_next = distribution(gen);
         bool picked = false;
         std::vector<double>  center_next = inData.originalData[index_next];
-            for(unsigned j=0; j<inData.originalData.size()-1; j++) {
+            for(unsigned j=0; j<inData.originalData.size(); j++) {
                 auto dist_next = ut.vectors_distance(inData.originalData[j], center_next);
                 auto centers_dist = ut.vectors_distance(center_initial, center_next);
                 auto probability = (centers_dist*centers_dist)/dist_next;
@@ -80,8 +84,9 @@ pipePacket kMeansPlusPlus::runPreprocessor(pipePacket inData){
             }
     }       
     
-    int i = 0;
-    while(tempCentroids.size() < num_clusters){
+    //There can't be more centroids than distinct points
+    unsigned i = 0;
+    while(tempCentroids.size() < num_clusters && i < inData.originalData.size()){
 		if(std::find(tempCentroids.begin(), tempCentroids.end(), inData.originalData[i]) == tempCentroids.end()){
 			tempCentroids.push_back(inData.originalData[i]);
 		}
@@ -106,13 +111,13 @@ pipePacket kMeansPlusPlus::runPreprocessor(pipePacket inData){
     //Iterate until we reach max iderations or no change in the classification
 	for (int z = 0; z < num_iterations; z++){
 		
-		std::vector<double> summedClusters(num_clusters, 0); 
-		std::vector<std::vector<double>> summedCentroidVectors(num_clusters, std::vector<double>(inData.originalData[0].size(), 0));
-		std::vector<double> counts(num_clusters, 0);
+		std::vector<double> summedClusters(tempCentroids.size(), 0); 
+		std::vector<std::vector<double>> summedCentroidVectors(tempCentroids.size(), std::vector<double>(inData.originalData[0].size(), 0));
+		std::vector<double> counts(tempCentroids.size(), 0);
 		std::vector<unsigned> curLabels;
 		
 		//For each point, classify it to a centroid
-		for (unsigned j = 0; j < inData.originalData.size() - 1; j++){
+		for (unsigned j = 0; j < inData.originalData.size(); j++){
 			double minDist = std::numeric_limits<double>::max();
 			unsigned clusterIndex = 0;
 			
@@ -139,6 +144,11 @@ pipePacket kMeansPlusPlus::runPreprocessor(pipePacket inData){
 		//Otherwise, 
 		//		Shift the centroid geometric centers to new centroids
 		for(int i = 0; i < summedCentroidVectors.size(); i++){
+			//A centroid without points stays where it is
+			if(counts[i] == 0){
+				summedCentroidVectors[i] = tempCentroids[i];
+				continue;
+			}
 			for(int d =0; d < summedCentroidVectors[0].size(); d++){
 				summedCentroidVectors[i][d] = summedCentroidVectors[i][d] / counts[i];
 			}
-- 
2.43.0


From 30b342826165ce895196151c128b3e5cfbd58899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:41 +0000
Subject: [PATCH 09/27] fix: a point always belongs to the partition of its own
 centroid

---
 Utils/utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utils/utils.cpp b/Utils/utils.cpp
index 6ad28f2..598a943 100644
--- a/Utils/utils.cpp
+++ b/Utils/utils.cpp
@@ -55,8 +55,8 @@ std::pair<std::vector<std::vector<unsigned>>, std::vector<std::vector<std::vecto
 		for(unsigned j = 0; j < centroids.size(); j++){
 			double curRad = vectors_distance(originalData[i], centroids[j]);
 			
-			//If this distance is less than our radius cutoff
-			if(curRad < rad){
+			//If this distance is less than our radius cutoff, or the point was assigned to this centroid
+			if(curRad < rad || labels[i] == j){
 				res[j].push_back(originalData[i]);
 				labres[j].push_back(i);	
 			}	
-- 
2.43.0


From 72198ebf9b0303964808dda9f0e02428364ac5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:41 +0000
Subject: [PATCH 10/27] fix: reduced mode maps each partition's own bettis,
 within bounds

---
 LHFmain/main.cpp | 2 ++
 Utils/utils.cpp  | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/LHFmain/main.cpp b/LHFmain/main.cpp
index 3989770..3aaad19 100644
--- a/LHFmain/main.cpp
+++ b/LHFmain/main.cpp
@@ -118,6 +118,8 @@ void processReducedWrapper(std::map<std::string, std::string> args, pipePacket*
 			std::cout << "Running Pipeline with : " << partitionedData.second[z].size() << " vectors" << std::endl;
 			wD->originalData = partitionedData.second[z];
 			
+			//Each partition reports its own bettis
+			wD->bettiTable.clear();
 			
 			runPipeline(args, wD);
 			
diff --git a/Utils/utils.cpp b/Utils/utils.cpp
index 598a943..a0776f0 100644
--- a/Utils/utils.cpp
+++ b/Utils/utils.cpp
@@ -86,11 +86,12 @@ void utils::mapPartitionIndexing(std::vector<unsigned> partitionedLabels, std::v
 	
 	//std::cout << "Part Labels: " << partitionedLabels.size() << std::endl;
 	
-	for(auto bet : bettiTable){
+	for(auto& bet : bettiTable){
 		std::set<unsigned> convBound;
 		
 		for(auto ind : bet.boundaryPoints){
-			convBound.insert(partitionedLabels[ind]);
+			if(ind < partitionedLabels.size())
+				convBound.insert(partitionedLabels[ind]);
 			//std::cout << "Converted point : " << ind << " to index: " << partitionedLabels[ind] << std::endl;
 		}			
 		bet.boundaryPoints = convBound;
-- 
2.43.0


From 98f5e89630354b5390da20e4b2a3cb64c0db6f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:20 +0000
Subject: [PATCH 11/27] fix: the sliding window keeps its statistics in step
 with its points

---
 Pipes/slidingWindow.cpp | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/Pipes/slidingWindow.cpp b/Pipes/slidingWindow.cpp
index 20b4a45..552afb0 100644
--- a/Pipes/slidingWindow.cpp
+++ b/Pipes/slidingWindow.cpp
@@ -34,11 +34,25 @@ void slidingWindow::deleteNNstats()
 
     defaultVals->nnIndices.erase( defaultVals->nnIndices.begin() + defaultVals->indexToBeDeleted );
 
+    // The points behind the deleted one move up by one position; -2 marks the points that lost their nearest neighbor.
+    for(auto &nnIndex : defaultVals->nnIndices)
+    {
+        if (nnIndex == defaultVals->indexToBeDeleted)
+            nnIndex = -2;
+        else if (nnIndex > defaultVals->indexToBeDeleted)
+            nnIndex--;
+    }
+
     defaultVals->nnDistToBeDeleted = defaultVals->nnDists[defaultVals->indexToBeDeleted];
     defaultVals->nnDists.erase( defaultVals->nnDists.begin() + defaultVals->indexToBeDeleted );
 
     defaultVals->distsFromCurrVec.erase( defaultVals->distsFromCurrVec.begin() + defaultVals->indexToBeDeleted );
 
+    // Delete the corresponding row and column from the distance matrix.
+    pPack->complex->distMatrix.erase( pPack->complex->distMatrix.begin() + defaultVals->indexToBeDeleted );
+    for(auto &row : pPack->complex->distMatrix)
+        row.erase( row.begin() + defaultVals->indexToBeDeleted );
+
     defaultVals->numPointsPartn[defaultVals->labelToBeDeleted] = defaultVals->numPointsPartn[defaultVals->labelToBeDeleted] - 1;
 
     // If there are no more points left in the partition from which the deletion took place:
@@ -80,7 +94,7 @@ void slidingWindow::updateStats()
         // to be added to. And, the point that was deleted was the nearest neighbor of the i-th point.
         if ( defaultVals->partitionLabels[i] == defaultVals->labelToBeDeleted
                 &&  defaultVals->partitionLabels[i] != defaultVals->targetPartition
-                && defaultVals->nnIndices[i] == defaultVals->indexToBeDeleted )
+                && defaultVals->nnIndices[i] == -2 )
         {
 
             // If only one point remains in the partition from which the last point was deleted:
@@ -199,7 +213,7 @@ void slidingWindow::updateStats()
                 sumNewNNdists = sumNewNNdists + defaultVals->nnDists[i];
             }
 
-            else if ( defaultVals->nnIndices[i] == defaultVals->indexToBeDeleted )
+            else if ( defaultVals->nnIndices[i] == -2 )
             {
                 distsFromCurrVecTP.push_back( defaultVals->distsFromCurrVec[i] );
                 tpIndices.push_back(i);
@@ -209,7 +223,7 @@ void slidingWindow::updateStats()
                 std::vector<double> memberDistsFromVect;
                 std::vector<int> memberIndices;
 
-                for(unsigned int j = 0; j < defaultVals->windowMaxSize; j++)
+                for(unsigned int j = 0; j < pPack->complex->distMatrix.size(); j++)
                 {
                     if ( defaultVals->partitionLabels[j] == defaultVals->labelToBeDeleted )
                     {
@@ -225,6 +239,10 @@ void slidingWindow::updateStats()
                         }
                     }
                 }
+                // The new point is a member of the partition as well.
+                memberDistsFromVect.push_back( defaultVals->distsFromCurrVec[i] );
+                memberIndices.push_back( defaultVals->windowMaxSize - 1 );
+
                 auto tempIdx = std::min_element(memberDistsFromVect.begin(), memberDistsFromVect.end()) - memberDistsFromVect.begin();
                 defaultVals->nnIndices[i] = memberIndices[tempIdx];
 
@@ -437,7 +455,8 @@ bool slidingWindow::nnBasedEvaluator(std::vector<double>& currentVector, std::ve
                 // we'll delete the oldest point from a partition label != targetPartition label.
 
                 // Find the first occurrence of a partition label != targetPartition label.
-                defaultVals->indexToBeDeleted = std::find( defaultVals->partitionLabels.begin(), defaultVals->partitionLabels.end(), !defaultVals->targetPartition ) - defaultVals->partitionLabels.begin();
+                defaultVals->indexToBeDeleted = std::find_if( defaultVals->partitionLabels.begin(), defaultVals->partitionLabels.end(),
+                    [](int label){ return label != defaultVals->targetPartition; } ) - defaultVals->partitionLabels.begin();
                 defaultVals->labelToBeDeleted = defaultVals->partitionLabels[defaultVals->indexToBeDeleted];
 
                 deleteNNstats();
@@ -445,6 +464,9 @@ bool slidingWindow::nnBasedEvaluator(std::vector<double>& currentVector, std::ve
             }
         }
 
+        // Add to the distance matrix and update the NN statistics.
+        updateStats();
+
         return true;
     }
 
@@ -501,7 +523,10 @@ pipePacket slidingWindow::runPipe(pipePacket inData)
     utils ut;
     readInput rp;
 	pPack = &inData;
-	
+
+    // Every run starts with an empty window.
+    *defaultVals = EvalParams{ 200, 0, 0 };
+    defaultVals->distMatLastRow.assign( defaultVals->windowMaxSize, 0 );
 
     // For this pipe, we construct a sub-pipeline:
     //		1. Read data vector by vector, push into slidingWindow evaluation
-- 
2.43.0


From df7469b91af199d6678a5375ac456311039b7e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:10 +0000
Subject: [PATCH 12/27] fix: the radius of a micro-cluster of equal points is
 zero, not undefined

---
 Preprocessing/denStream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Preprocessing/denStream.cpp b/Preprocessing/denStream.cpp
index 05a3bd1..8fb723f 100644
--- a/Preprocessing/denStream.cpp
+++ b/Preprocessing/denStream.cpp
@@ -64,7 +64,7 @@ double microCluster::getRadius(){
     r2 += avgSquares[i] - center[i]*center[i]; //(CF2/w)-(CF1/w)^2
   }
 
-  return sqrt(r2);
+  return r2 > 0 ? sqrt(r2) : 0; //Rounding may leave a tiny negative value
 }
 
 double microCluster::mergeRadius(std::vector<double> point, int timestamp){ //Radius if new point would be merged in
@@ -77,7 +77,7 @@ double microCluster::mergeRadius(std::vector<double> point, int timestamp){ //Ra
     r2 += newAvgSquare - newCenter*newCenter; //Use updated center and average sum of squares
   }
 
-  return sqrt(r2);
+  return r2 > 0 ? sqrt(r2) : 0; //Rounding may leave a tiny negative value
 }
 
 // basePipe constructor
-- 
2.43.0


From 2fdbbdeee345ba69fdd1b17e4b76c747e7bbe5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:10 +0000
Subject: [PATCH 13/27] fix: DenStream handles short streams and streams that
 start with noise

---
 Preprocessing/denStream.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Preprocessing/denStream.cpp b/Preprocessing/denStream.cpp
index 8fb723f..e228bfc 100644
--- a/Preprocessing/denStream.cpp
+++ b/Preprocessing/denStream.cpp
@@ -90,8 +90,13 @@ denStream::denStream(){
 
 // runPipe -> Run the configured functions of this pipeline segment
 pipePacket denStream::runPreprocessor(pipePacket inData){
+  if(inData.originalData.size() == 0) //Nothing to cluster
+    return inData;
+
   /////////constants//////////
   initPoints = 1000; // points to generate p clusters (large data sets, use 1000) 
+  if(inData.originalData.size() < initPoints)
+    initPoints = inData.originalData.size();
   minPoints = 20; //For DBSCAN 
   mu = 10;   //weight of data points in cluster threshold
   beta = 0.2; // outlier threshold
@@ -110,9 +115,11 @@ pipePacket denStream::runPreprocessor(pipePacket inData){
   timestamp = initPoints/streamSpeed;
   numPerTime = initPoints % streamSpeed;
 
-  if(pClusters == -1) pClusters = 1;
+  if(pClusters == -1) pClusters = 0; //All noise
   pMicroClusters = std::vector<microCluster>(pClusters, microCluster(timestamp, inData.originalData[0].size(), lambda));
 
+  oMicroClusters.clear();
+
   //Take labels of each point and insert into appropriate microCluster
   for(int i = 0; i<initPoints; i++){
     if(clusterLabels[i] != -1){ //Not noise
-- 
2.43.0


From a9341784a2fe0fe177e2bfa2fcd6a62f50346955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:10 +0000
Subject: [PATCH 14/27] fix: the k-d tree finds neighbours on the boundary of
 the radius

---
 Preprocessing/kdTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Preprocessing/kdTree.cpp b/Preprocessing/kdTree.cpp
index 46184f8..b021bd4 100644
--- a/Preprocessing/kdTree.cpp
+++ b/Preprocessing/kdTree.cpp
@@ -268,7 +268,7 @@ pointIndexArr kdTree::neighborhood(const kdNodePtr &branch, const point &pt, con
 
     nbh_s = neighborhood(section, pt, rad, (level +1) % dim);
     nbh.insert(nbh.end(), nbh_s.begin(), nbh_s.end()); //Add points in neighborhood from that branch
-    if(abs(dx) < rad){ //Points in other branch may also be contained in neighborhood
+    if(std::abs(dx) <= rad){ //Points in other branch may also be contained in neighborhood
         nbh_o = neighborhood(other, pt, rad, (level+1)% dim);
         nbh.insert(nbh.end(), nbh_o.begin(), nbh_o.end());
     }
-- 
2.43.0


From 6c9c00caff0492fd550c41e6a79d1d638fec5a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:10 +0000
Subject: [PATCH 15/27] fix: stage times are measured with a clock that is
 never set

---
 Pipes/basePipe.cpp             | 4 ++--
 Preprocessing/preprocessor.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Pipes/basePipe.cpp b/Pipes/basePipe.cpp
index 851eac5..2cc5eaa 100644
--- a/Pipes/basePipe.cpp
+++ b/Pipes/basePipe.cpp
@@ -57,12 +57,12 @@ pipePacket basePipe::runPipeWrapper(pipePacket inData){
 		return inData;
 	}
 	//Start a timer for physical time passed during the pipe's function
-	auto startTime = std::chrono::high_resolution_clock::now();
+	auto startTime = std::chrono::steady_clock::now();
 	
 	inData = runPipe(inData);
 	
 	//Stop the timer for time passed during the pipe's function
-	auto endTime = std::chrono::high_resolution_clock::now();
+	auto endTime = std::chrono::steady_clock::now();
 	
 	//Calculate the duration (physical time) for the pipe's function
 	std::chrono::duration<double, std::milli> elapsed = endTime - startTime;
diff --git a/Preprocessing/preprocessor.cpp b/Preprocessing/preprocessor.cpp
index d68f4be..56c2bd0 100644
--- a/Preprocessing/preprocessor.cpp
+++ b/Preprocessing/preprocessor.cpp
@@ -46,12 +46,12 @@ pipePacket preprocessor::runPreprocessorWrapper(pipePacket inData){
 	}
 	
 	//Start a timer for physical time passed during the pipe's function
-	auto startTime = std::chrono::high_resolution_clock::now();
+	auto startTime = std::chrono::steady_clock::now();
 	
 	inData = runPreprocessor(inData);
 	
 	//Stop the timer for time passed during the pipe's function
-	auto endTime = std::chrono::high_resolution_clock::now();
+	auto endTime = std::chrono::steady_clock::now();
 	
 	//Calculate the duration (physical time) for the pipe's function
 	std::chrono::duration<double, std::milli> elapsed = endTime - startTime;
-- 
2.43.0


From ea154ae13c0e7b1798b3b06a3d11a6b606c572b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 16/27] fix: the exit status tells whether the results were
 stored

---
 LHFmain/main.cpp | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/LHFmain/main.cpp b/LHFmain/main.cpp
index 3aaad19..ebbb553 100644
--- a/LHFmain/main.cpp
+++ b/LHFmain/main.cpp
@@ -15,8 +15,10 @@
 using namespace std;
 
 
-void runPipeline(std::map<std::string, std::string> args, pipePacket* wD){
+//Returns true if every part of the pipeline ran and the results were stored
+bool runPipeline(std::map<std::string, std::string> args, pipePacket* wD){
 	auto *ws = new writeOutput();
+	bool success = true;
 
 	// Begin processing parts of the pipeline
 	// DataInput -> A -> B -> ... -> DataOutput
@@ -41,13 +43,14 @@ void runPipeline(std::map<std::string, std::string> args, pipePacket* wD){
 				*wD = cp->runPipeWrapper(*wD);
 			} else {
 				cout << "LHF : Failed to configure pipeline: " << args["pipeline"] << endl;
+				success = false;
 			}
 		}
 	}
 	//If the pipeline was undefined...
 	else {
 		cout << "LHF : Failed to find a suitable pipeline, exiting..." << endl;
-		return;
+		return false;
 	}
 	
 	//Output the data using writeOutput library
@@ -56,18 +59,19 @@ void runPipeline(std::map<std::string, std::string> args, pipePacket* wD){
 		if (args["outputFile"] == "console"){
 			//ws->writeConsole(wD);
 		} else {
-			ws->writeStats(wD->stats, args["outputFile"]);
-			ws->writeBarcodes(wD->bettiOutput, args["outputFile"]);
+			success = ws->writeStats(wD->stats, args["outputFile"]) && success;
+			success = ws->writeBarcodes(wD->bettiOutput, args["outputFile"]) && success;
 			
 		}
 	}
 	
-	return;
+	return success;
 }
 
 
 
-void processDataWrapper(std::map<std::string, std::string> args, pipePacket* wD){
+bool processDataWrapper(std::map<std::string, std::string> args, pipePacket* wD){
+	bool success = true;
     
 	//Start with the preprocessing function, if enabled
 	auto pre = args["preprocessor"];
@@ -79,15 +83,15 @@ void processDataWrapper(std::map<std::string, std::string> args, pipePacket* wD)
 			*wD = prePipe->runPreprocessorWrapper(*wD);
 		} else {
 			cout << "LHF : Failed to configure pipeline: " << args["pipeline"] << endl;
+			success = false;
 		}
 	}
 	
-	runPipeline(args, wD);
-		
-	return;
+	return runPipeline(args, wD) && success;
 }	
 
-void processReducedWrapper(std::map<std::string, std::string> args, pipePacket* wD){
+bool processReducedWrapper(std::map<std::string, std::string> args, pipePacket* wD){
+	bool success = true;
     
     std::vector<bettiBoundaryTableEntry> mergedBettiTable;
     
@@ -101,6 +105,7 @@ void processReducedWrapper(std::map<std::string, std::string> args, pipePacket*
 			*wD = prePipe->runPreprocessorWrapper(*wD);
 		} else {
 			cout << "LHF : Failed to configure pipeline: " << args["pipeline"] << endl;
+			success = false;
 		}
 	}
 	
@@ -121,7 +126,7 @@ void processReducedWrapper(std::map<std::string, std::string> args, pipePacket*
 			//Each partition reports its own bettis
 			wD->bettiTable.clear();
 			
-			runPipeline(args, wD);
+			success = runPipeline(args, wD) && success;
 			
 			wD->complex->clear();
 			
@@ -139,7 +144,7 @@ void processReducedWrapper(std::map<std::string, std::string> args, pipePacket*
 	if(centroids.size() > 0){
 		std::cout << "Running Pipeline with : " << centroids.size() << " vectors" << std::endl;
 		wD->originalData = centroids;
-		runPipeline(args, wD);
+		success = runPipeline(args, wD) && success;
 		
 		wD->complex->clear();
 	} else 
@@ -153,7 +158,7 @@ void processReducedWrapper(std::map<std::string, std::string> args, pipePacket*
 	}
 	
 		
-	return;
+	return success;
 }	
 
 
@@ -265,6 +270,7 @@ int main(int argc, char* argv[]){
 	
 	//Define external classes used for reading input, parsing arguments, writing output
 	auto *rs = new readInput();
+	bool success = true;
     auto *ap = new argParser();
     
     //Parse the command-line arguments
@@ -293,15 +299,16 @@ int main(int argc, char* argv[]){
 		if(args["upscale"] == "true"){
 			processUpscaleWrapper(args, wD);
 		} else if (args["mode"] == "reduced"){
-			processReducedWrapper(args,wD);			
+			success = processReducedWrapper(args,wD);			
 		} else {
-			processDataWrapper(args, wD);
+			success = processDataWrapper(args, wD);
 		}
 	} else {
 		ap->printUsage();
+		success = false;
 	}
 	
 	
 	
-    return 0;
+    return success ? 0 : 1;
 }
-- 
2.43.0


From d50a02fae662a4bf3ef615b6ec57615586098c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:52 +0000
Subject: [PATCH 17/27] fix: a complex logs debug messages only when debugging
 is on

---
 Complex/simplexBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Complex/simplexBase.cpp b/Complex/simplexBase.cpp
index 1171ea6..02823e3 100644
--- a/Complex/simplexBase.cpp
+++ b/Complex/simplexBase.cpp
@@ -27,7 +27,7 @@ void simplexBase::setConfig(std::map<std::string, std::string> configMap){
 
 	auto pipe = configMap.find("debug");
 	if(pipe != configMap.end())
-		debug = std::atoi(configMap["debug"].c_str());
+		debug = configMap["debug"];
 	pipe = configMap.find("outputFile");
 	if(pipe != configMap.end())
 		outputFile = configMap["outputFile"].c_str();
-- 
2.43.0


From 9f03e36d8b0d7330a7cecf140c1dbfe58aa40a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:22 +0000
Subject: [PATCH 18/27] fix: persistencePairs stays inside its table of
 simplices

---
 Pipes/persistencePairs.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Pipes/persistencePairs.cpp b/Pipes/persistencePairs.cpp
index fe33d53..801e79b 100644
--- a/Pipes/persistencePairs.cpp
+++ b/Pipes/persistencePairs.cpp
@@ -236,12 +236,12 @@ pipePacket persistencePairs::runPipe(pipePacket inData){
 			tArray[curIndex].marked = true;
 			
 		} else {
-			int iter = tArray.size();
+			int iter = (int)tArray.size() - 1;
 			for(; iter >= 0; iter--){
 				if(tArray[iter].marked && tArray[iter].death < 0 && tArray[curIndex].simplex.size() != kSimplices[iter].size() && ut.setIntersect(kSimplices[iter], tArray[curIndex].simplex, false).size() == tArray[curIndex].simplex.size() - 1)
 					break;
 			}
-			if(iter != 0){
+			if(iter > 0){
 				if(tArray[iter].death < 0 ){
 					tArray[iter].death = kWeights[curIndex];
 					
@@ -252,7 +252,7 @@ pipePacket persistencePairs::runPipe(pipePacket inData){
 			
 			if(!kPivots.empty()){
 				kPivots.erase(kPivots.begin());
-				curPivot = *(kPivots.begin());
+				curPivot = kPivots.empty() ? -1 : *(kPivots.begin());
 			}
 		}
 	}
-- 
2.43.0


From c78c0be0e4130a1446edb5bc2ad59374bebc0bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:45 +0000
Subject: [PATCH 19/27] fix: rounding never makes the average nearest-neighbour
 distance negative

---
 Pipes/slidingWindow.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Pipes/slidingWindow.cpp b/Pipes/slidingWindow.cpp
index 552afb0..d42a70d 100644
--- a/Pipes/slidingWindow.cpp
+++ b/Pipes/slidingWindow.cpp
@@ -281,7 +281,7 @@ void slidingWindow::updateStats()
 
             int n = defaultVals->numPointsPartn[defaultVals->labelToBeDeleted];
             double avgDel = defaultVals->avgNNDistPartitions[defaultVals->labelToBeDeleted];
-            defaultVals->avgNNDistPartitions[defaultVals->labelToBeDeleted] = ( (n+1)*avgDel - defaultVals->nnDistToBeDeleted - sumDelOldNNdists + sumDelNewdists ) / n;
+            defaultVals->avgNNDistPartitions[defaultVals->labelToBeDeleted] = std::max( 0.0, ( (n+1)*avgDel - defaultVals->nnDistToBeDeleted - sumDelOldNNdists + sumDelNewdists ) / n );
         }
 
         // Update the average NN distance of the partition to which the new point is being added.
@@ -295,7 +295,7 @@ void slidingWindow::updateStats()
 
             int n = defaultVals->numPointsPartn[defaultVals->targetPartition];
             double avgAdd = defaultVals->avgNNDistPartitions[defaultVals->targetPartition];
-            defaultVals->avgNNDistPartitions[defaultVals->targetPartition] = ( n*avgAdd + nnDistFromNewVect - sumAddOldNNdists + sumAddNewdists ) / (n+1);
+            defaultVals->avgNNDistPartitions[defaultVals->targetPartition] = std::max( 0.0, ( n*avgAdd + nnDistFromNewVect - sumAddOldNNdists + sumAddNewdists ) / (n+1) );
 
             defaultVals->numPointsPartn[defaultVals->targetPartition] = n + 1;
 
@@ -314,7 +314,7 @@ void slidingWindow::updateStats()
         int n = defaultVals->numPointsPartn[defaultVals->targetPartition] + 1;
         double avgNNd = defaultVals->avgNNDistPartitions[defaultVals->targetPartition];
 
-        defaultVals->avgNNDistPartitions[defaultVals->targetPartition] = ( n*avgNNd - defaultVals->nnDistToBeDeleted - sumOldNNdists + sumNewNNdists + nnDistFromNewVect ) / n;
+        defaultVals->avgNNDistPartitions[defaultVals->targetPartition] = std::max( 0.0, ( n*avgNNd - defaultVals->nnDistToBeDeleted - sumOldNNdists + sumNewNNdists + nnDistFromNewVect ) / n );
         defaultVals->numPointsPartn[defaultVals->targetPartition] = n;
     }
 
-- 
2.43.0


From a9236470a980d18550ab311ce6b990f18020fcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:14 +0000
Subject: [PATCH 20/27] fix: every stage logs to the configured log

---
 Pipes/boundaryPipe.hpp        | 1 -
 Pipes/fastPersistence.hpp     | 1 -
 Pipes/optPersistencePairs.hpp | 1 -
 Pipes/persistencePairs.hpp    | 1 -
 4 files changed, 4 deletions(-)

diff --git a/Pipes/boundaryPipe.hpp b/Pipes/boundaryPipe.hpp
index 0be8b46..2cb5ea8 100644
--- a/Pipes/boundaryPipe.hpp
+++ b/Pipes/boundaryPipe.hpp
@@ -9,7 +9,6 @@ class boundaryPipe : public basePipe {
   private:
 	std::vector<int> ranks;
 	std::vector<int> nRanks;
-	utils ut;
 	float maxEpsilon;
   public:
 	int dim;
diff --git a/Pipes/fastPersistence.hpp b/Pipes/fastPersistence.hpp
index 10cdea6..951d0dd 100644
--- a/Pipes/fastPersistence.hpp
+++ b/Pipes/fastPersistence.hpp
@@ -11,7 +11,6 @@
 class fastPersistence : public basePipe {
   private:
   
-	utils ut;
 	double maxEpsilon;
 	std::string twist;
   public:
diff --git a/Pipes/optPersistencePairs.hpp b/Pipes/optPersistencePairs.hpp
index 3eb7c33..17b4c54 100644
--- a/Pipes/optPersistencePairs.hpp
+++ b/Pipes/optPersistencePairs.hpp
@@ -11,7 +11,6 @@
 class optPersistencePairs : public basePipe {
   private:
   
-	utils ut;
 	double maxEpsilon;
 	std::string twist;
   public:
diff --git a/Pipes/persistencePairs.hpp b/Pipes/persistencePairs.hpp
index 6c39af1..3d79ee4 100644
--- a/Pipes/persistencePairs.hpp
+++ b/Pipes/persistencePairs.hpp
@@ -10,7 +10,6 @@
 class persistencePairs : public basePipe {
   private:
   
-	utils ut;
 	double maxEpsilon;
 	std::string twist;
   public:
-- 
2.43.0


From f0622ff71395d7de4558d00beb7f96d836470cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:31 +0000
Subject: [PATCH 21/27] fix: a stream that ended does not keep its file open

---
 Utils/readInput.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Utils/readInput.cpp b/Utils/readInput.cpp
index c11bc9e..7d77661 100644
--- a/Utils/readInput.cpp
+++ b/Utils/readInput.cpp
@@ -155,6 +155,10 @@ std::vector<std::vector<double>> readInput::readMAT(std::string filename){
 
 
 bool readInput::streamInit(std::string filename){
+	//Close a stream that was not read to its end
+	if(pFile != NULL)
+		fclose(pFile);
+	
 	pFile = fopen(filename.c_str(), "r");
 	
 	if(pFile == NULL)
@@ -181,8 +185,11 @@ bool readInput::streamRead(std::vector<double> &row){
 		}
 		
 		//Check for EOF; a line cut short by a failed read is not a row
-		if(ferror(pFile) || line.size() == 0)
+		if(ferror(pFile) || line.size() == 0){
+			fclose(pFile);
+			pFile = NULL;
 			return false;
+		}
 		
 		//Parse our row
 		if(parseDoubleVector(line, row))
-- 
2.43.0


From ac60f4f868fb00530bc94d6342c5f3ac1f9f1527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 22/27] fix: sliding window: run the last sub-pipeline on the
 window's current points

The final trigger at the end of the stream passed on the points of the
last checkpoint (or of the initial window), so its window dump missed
every later arrival.
---
 Pipes/slidingWindow.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Pipes/slidingWindow.cpp b/Pipes/slidingWindow.cpp
index d42a70d..ae09fac 100644
--- a/Pipes/slidingWindow.cpp
+++ b/Pipes/slidingWindow.cpp
@@ -610,6 +610,9 @@ pipePacket slidingWindow::runPipe(pipePacket inData)
         {
             std::cout << "pointCounter: " << pointCounter << "\tSimplex Count: " << inData.complex->simplexCount() << "\tVertex Count: " << inData.complex->vertexCount() << std::endl;
 
+            // A window that never filled has no complex to run the pipeline on
+            if(windowValues.size() == defaultVals->windowMaxSize)
+                inData.originalData = windowValues;
             runSubPipeline(inData);
         }
         ut.writeLog("slidingWindow", "\tSuccessfully evaluated " + std::to_string(pointCounter) + " points");
-- 
2.43.0


From b832c31f155a46319a8a5129361fa3085815bf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 23/27] fix: log through the stages' configured logger, and
 count the evaluated points right

distMatrixPipe, naiveWindow and slidingWindow shadowed the configured
logger with a local one, so their messages missed the log file; the
window stages also reported one point too many.
---
 Pipes/distMatrixPipe.cpp | 1 -
 Pipes/naiveWindow.cpp    | 3 +--
 Pipes/slidingWindow.cpp  | 3 +--
 3 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/Pipes/distMatrixPipe.cpp b/Pipes/distMatrixPipe.cpp
index 3a2f398..e92f7b2 100644
--- a/Pipes/distMatrixPipe.cpp
+++ b/Pipes/distMatrixPipe.cpp
@@ -26,7 +26,6 @@ distMatrixPipe::distMatrixPipe(){
 
 // runPipe -> Run the configured functions of this pipeline segment
 pipePacket distMatrixPipe::runPipe(pipePacket inData){
-	utils ut;
 	
 	//Store our distance matrix
 	std::vector<std::vector<double>> distMatrix (inData.originalData.size(), std::vector<double>(inData.originalData.size(),0));
diff --git a/Pipes/naiveWindow.cpp b/Pipes/naiveWindow.cpp
index fe8b954..1905666 100644
--- a/Pipes/naiveWindow.cpp
+++ b/Pipes/naiveWindow.cpp
@@ -29,7 +29,6 @@ bool naiveWindow::sampleStreamEvaluator(std::vector<double>& vector, std::vector
 
 // runPipe -> Run the configured functions of this pipeline segment
 pipePacket naiveWindow::runPipe(pipePacket inData){
-	utils ut;
 	readInput rp;
 
 	int windowMaxSize = 50;
@@ -106,7 +105,7 @@ pipePacket naiveWindow::runPipe(pipePacket inData){
 
 			//runSubPipeline(inData);
 		}
-		ut.writeLog("slidingWindow", "\tSuccessfully evaluated " + std::to_string(pointCounter) + " points");
+		ut.writeLog("slidingWindow", "\tSuccessfully evaluated " + std::to_string(pointCounter - 1) + " points");
 	
 		writeComplexStats(inData);
 	}
diff --git a/Pipes/slidingWindow.cpp b/Pipes/slidingWindow.cpp
index ae09fac..a035c3a 100644
--- a/Pipes/slidingWindow.cpp
+++ b/Pipes/slidingWindow.cpp
@@ -520,7 +520,6 @@ pipePacket* slidingWindow::pPack;
 // runPipe -> Run the configured functions of this pipeline segment
 pipePacket slidingWindow::runPipe(pipePacket inData)
 {
-    utils ut;
     readInput rp;
 	pPack = &inData;
 
@@ -615,7 +614,7 @@ pipePacket slidingWindow::runPipe(pipePacket inData)
                 inData.originalData = windowValues;
             runSubPipeline(inData);
         }
-        ut.writeLog("slidingWindow", "\tSuccessfully evaluated " + std::to_string(pointCounter) + " points");
+        ut.writeLog("slidingWindow", "\tSuccessfully evaluated " + std::to_string(pointCounter - 1) + " points");
 
         writeComplexStats(inData);
     }
-- 
2.43.0


From 31c701ef3710f0af65a7793031591564c40d40b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:05 +0000
Subject: [PATCH 24/27] fix: simplexArrayList: store the edges at dimension 0
 as well

---
 Complex/simplexArrayList.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Complex/simplexArrayList.cpp b/Complex/simplexArrayList.cpp
index d941925..7c51456 100644
--- a/Complex/simplexArrayList.cpp
+++ b/Complex/simplexArrayList.cpp
@@ -54,7 +54,8 @@ void simplexArrayList::insert(std::vector<double> &vector){
 		
 		unsigned i = weightedGraph[0].size();
 		vertex = {i};
-		if(maxDimension > 0){
+		//The edges decide the connected components, dimension 0 needs them as well
+		if(maxDimension >= 0){
 			//Iterate through each existing to compare to new insertion
 			for(unsigned j = 0; j < weightedGraph[0].size(); j++){
 				
-- 
2.43.0


From 59fd0bcc95d19a50802ae619363dd38ac4328471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:05 +0000
Subject: [PATCH 25/27] fix: read values too small for a normalized double

---
 Utils/readInput.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/Utils/readInput.cpp b/Utils/readInput.cpp
index 7d77661..ced8d33 100644
--- a/Utils/readInput.cpp
+++ b/Utils/readInput.cpp
@@ -14,6 +14,8 @@
 #include <regex>
 #include <fstream>
 #include <cmath>
+#include <cstdlib>
+#include <stdexcept>
 #include "readInput.hpp"
 
 
@@ -63,6 +65,21 @@ std::vector<std::vector<double>> readInput::readCSV(std::string filename){
 }
 
 
+// parseDouble -> convert the text of a value; unlike std::stod this accepts values too small for a normalized double
+static double parseDouble(const std::string &text){
+	char *end;
+	double value = std::strtod(text.c_str(), &end);
+	
+	if(end == text.c_str())
+		throw std::invalid_argument("Not a number: " + text);
+	
+	if(std::isinf(value) && text.find_first_of("iI") == std::string::npos)
+		throw std::out_of_range("Out of range: " + text);
+	
+	return value;
+}
+
+
 bool readInput::parseDoubleVector(std::string line, std::vector<double> &row){
 	std::size_t pos = std::string::npos;
 	
@@ -75,13 +92,13 @@ bool readInput::parseDoubleVector(std::string line, std::vector<double> &row){
 		// Iterate through each comma of the csv
 		while((pos = line.find_first_of(",")) != std::string::npos){
 			// Push the value found before the comma, remove from the line
-			row.push_back(std::stod(line.substr(0,pos)));
+			row.push_back(parseDouble(line.substr(0,pos)));
 			line.erase(0,pos + 1);
 				
 		}
 		// Get the last value of the line
 		if(line.size() > 0)
-			row.push_back(std::stod(line.substr(0,pos)));
+			row.push_back(parseDouble(line.substr(0,pos)));
 	} else
 		return false;
 	
@@ -145,7 +162,7 @@ std::vector<std::vector<double>> readInput::readMAT(std::string filename){
 			} while(line.size() == 0);
 			
 			// Push the value of the line
-			tmp.push_back(std::stod(line));
+			tmp.push_back(parseDouble(line));
 		}
 		result.push_back(tmp);
 		
-- 
2.43.0


From f74ee052fe7dc1927c42bee45533542eb16d9ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:49 +0000
Subject: [PATCH 26/27] fix: simplexArrayList: no edges without a distance
 matrix, as in the trees

---
 Complex/simplexArrayList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Complex/simplexArrayList.cpp b/Complex/simplexArrayList.cpp
index 7c51456..f7bdf4c 100644
--- a/Complex/simplexArrayList.cpp
+++ b/Complex/simplexArrayList.cpp
@@ -55,7 +55,7 @@ void simplexArrayList::insert(std::vector<double> &vector){
 		unsigned i = weightedGraph[0].size();
 		vertex = {i};
 		//The edges decide the connected components, dimension 0 needs them as well
-		if(maxDimension >= 0){
+		if(maxDimension >= 0 && distMatrix.size() > 0){
 			//Iterate through each existing to compare to new insertion
 			for(unsigned j = 0; j < weightedGraph[0].size(); j++){
 				
-- 
2.43.0


From 7503712989063cc260f8e39b0ce36ae6e3402fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:19 +0000
Subject: [PATCH 27/27] fix: a sliding-window run that finds no points does not
 exit with success

---
 LHFmain/main.cpp        | 4 ++++
 Pipes/slidingWindow.cpp | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/LHFmain/main.cpp b/LHFmain/main.cpp
index ebbb553..c1aa779 100644
--- a/LHFmain/main.cpp
+++ b/LHFmain/main.cpp
@@ -302,6 +302,10 @@ int main(int argc, char* argv[]){
 			success = processReducedWrapper(args,wD);			
 		} else {
 			success = processDataWrapper(args, wD);
+			
+			//The sliding window reads its input itself; a stream without points is no input either
+			if(args["pipeline"] == "slidingwindow" && wD->originalData.size() == 0)
+				success = false;
 		}
 	} else {
 		ap->printUsage();
diff --git a/Pipes/slidingWindow.cpp b/Pipes/slidingWindow.cpp
index a035c3a..aadea73 100644
--- a/Pipes/slidingWindow.cpp
+++ b/Pipes/slidingWindow.cpp
@@ -614,6 +614,9 @@ pipePacket slidingWindow::runPipe(pipePacket inData)
                 inData.originalData = windowValues;
             runSubPipeline(inData);
         }
+        // The points in the window at the end of the stream are what this pipe leaves behind
+        inData.originalData = windowValues;
+
         ut.writeLog("slidingWindow", "\tSuccessfully evaluated " + std::to_string(pointCounter - 1) + " points");
 
         writeComplexStats(inData);
-- 
2.43.0

