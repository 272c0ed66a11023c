From 929ad58925b8e5a84fb19381f6a38784bee3b357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 01/94] verif: small preallocation under the verif build tag

---
 SmartCache/sim/cache/files/sizing.go       | 7 +++++++
 SmartCache/sim/cache/files/sizing_verif.go | 8 ++++++++
 SmartCache/sim/cache/files/stats.go        | 3 +--
 SmartCache/sim/cache/queue/base.go         | 3 +--
 SmartCache/sim/cache/queue/sizing.go       | 7 +++++++
 SmartCache/sim/cache/queue/sizing_verif.go | 8 ++++++++
 6 files changed, 32 insertions(+), 4 deletions(-)
 create mode 100644 SmartCache/sim/cache/files/sizing.go
 create mode 100644 SmartCache/sim/cache/files/sizing_verif.go
 create mode 100644 SmartCache/sim/cache/queue/sizing.go
 create mode 100644 SmartCache/sim/cache/queue/sizing_verif.go

diff --git a/SmartCache/sim/cache/files/sizing.go b/SmartCache/sim/cache/files/sizing.go
new file mode 100644
index 0000000..033d36f
--- /dev/null
+++ b/SmartCache/sim/cache/files/sizing.go
@@ -0,0 +1,7 @@
+//go:build !verif
+// +build !verif
+
+package files
+
+// estimatedNumFiles is the number of files the statistics are preallocated for
+const estimatedNumFiles = 1 << 19
diff --git a/SmartCache/sim/cache/files/sizing_verif.go b/SmartCache/sim/cache/files/sizing_verif.go
new file mode 100644
index 0000000..4b22671
--- /dev/null
+++ b/SmartCache/sim/cache/files/sizing_verif.go
@@ -0,0 +1,8 @@
+//go:build verif
+// +build verif
+
+package files
+
+// estimatedNumFiles is the number of files the statistics are preallocated for: few
+// of them, so that the verification builds can create many caches quickly
+const estimatedNumFiles = 1 << 6
diff --git a/SmartCache/sim/cache/files/stats.go b/SmartCache/sim/cache/files/stats.go
index 2d4f0eb..6621bd5 100644
--- a/SmartCache/sim/cache/files/stats.go
+++ b/SmartCache/sim/cache/files/stats.go
@@ -9,8 +9,7 @@ import (
 )
 
 const (
-	numHoursInADay    = 24.
-	estimatedNumFiles = 1 << 19
+	numHoursInADay = 24.
 )
 
 // Manager collector of statistics for weight function cache
diff --git a/SmartCache/sim/cache/queue/base.go b/SmartCache/sim/cache/queue/base.go
index fe597bb..39a74de 100644
--- a/SmartCache/sim/cache/queue/base.go
+++ b/SmartCache/sim/cache/queue/base.go
@@ -24,8 +24,7 @@ const (
 )
 
 const (
-	estimatedNumFiles = 1 << 19
-	bufferSize        = estimatedNumFiles >> 2
+	bufferSize = estimatedNumFiles >> 2
 )
 
 type Queue interface {
diff --git a/SmartCache/sim/cache/queue/sizing.go b/SmartCache/sim/cache/queue/sizing.go
new file mode 100644
index 0000000..1f1b777
--- /dev/null
+++ b/SmartCache/sim/cache/queue/sizing.go
@@ -0,0 +1,7 @@
+//go:build !verif
+// +build !verif
+
+package queue
+
+// estimatedNumFiles is the number of files a queue is preallocated for
+const estimatedNumFiles = 1 << 19
diff --git a/SmartCache/sim/cache/queue/sizing_verif.go b/SmartCache/sim/cache/queue/sizing_verif.go
new file mode 100644
index 0000000..f24556e
--- /dev/null
+++ b/SmartCache/sim/cache/queue/sizing_verif.go
@@ -0,0 +1,8 @@
+//go:build verif
+// +build verif
+
+package queue
+
+// estimatedNumFiles is the number of files a queue is preallocated for: few
+// of them, so that the verification builds can create many caches quickly
+const estimatedNumFiles = 1 << 6
-- 
2.43.0


From f0f5e28d3796e688d1cc0c19cb2aba47c7691e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 02/94] fix: best-first listing of LFU, size and weight queues
 read past the end

---
 SmartCache/sim/cache/queue/genericF.go | 2 +-
 SmartCache/sim/cache/queue/lfu.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/SmartCache/sim/cache/queue/genericF.go b/SmartCache/sim/cache/queue/genericF.go
index a63efba..7d75347 100644
--- a/SmartCache/sim/cache/queue/genericF.go
+++ b/SmartCache/sim/cache/queue/genericF.go
@@ -48,7 +48,7 @@ func (q *QueueBaseFloat) getQueue() []*files.Stats {
 
 	for idxOVal := len(q.orderedValues) - 1; idxOVal > -1; idxOVal-- {
 		curQueue := q.queue[q.orderedValues[idxOVal]]
-		for idx := len(curQueue); idx > -1; idx-- {
+		for idx := len(curQueue) - 1; idx > -1; idx-- {
 			filename := curQueue[idx]
 			fileStats, inQueue := q.files[filename]
 
diff --git a/SmartCache/sim/cache/queue/lfu.go b/SmartCache/sim/cache/queue/lfu.go
index b07ae31..f78adfe 100644
--- a/SmartCache/sim/cache/queue/lfu.go
+++ b/SmartCache/sim/cache/queue/lfu.go
@@ -45,7 +45,7 @@ func (q *LFU) getQueue() []*files.Stats {
 
 	for idxOVal := len(q.orderedValues) - 1; idxOVal > -1; idxOVal-- {
 		curQueue := q.queue[q.orderedValues[idxOVal]]
-		for idx := len(curQueue); idx > -1; idx-- {
+		for idx := len(curQueue) - 1; idx > -1; idx-- {
 			filename := curQueue[idx]
 			fileStats, inQueue := q.files[filename]
 
-- 
2.43.0


From b7a6d9e35429f6b67382674f1b3f996e8e38eac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 03/94] fix: keep the position of the last remembered request
 time in cache dumps

---
 SmartCache/sim/cache/files/stats.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SmartCache/sim/cache/files/stats.go b/SmartCache/sim/cache/files/stats.go
index 6621bd5..af76330 100644
--- a/SmartCache/sim/cache/files/stats.go
+++ b/SmartCache/sim/cache/files/stats.go
@@ -198,7 +198,7 @@ type Stats struct {
 	RequestedTimesMean float64     `json:"requestedTimesMean"`
 	RequestedTimes     []time.Time `json:"requestedTimes"`
 	DeltaLastRequest   int64       `json:"deltaLastRequest"`
-	idxLastRequest     int
+	IdxLastRequest     int         `json:"idxLastRequest"`
 }
 
 // DiffLastUpdate returns the number of days from the last update stats
@@ -221,8 +221,8 @@ func (stats *Stats) UpdateStats(hit bool, size float64, userID int64, siteName i
 	if len(stats.RequestedTimes) < NumRequestedTimes {
 		stats.RequestedTimes = append(stats.RequestedTimes, time.Time{})
 	}
-	stats.RequestedTimes[stats.idxLastRequest] = curTime
-	stats.idxLastRequest = (stats.idxLastRequest + 1) % NumRequestedTimes
+	stats.RequestedTimes[stats.IdxLastRequest] = curTime
+	stats.IdxLastRequest = (stats.IdxLastRequest + 1) % NumRequestedTimes
 }
 
 func (stats *Stats) updateWeight(wFun functions.WeightFun, alpha float64, beta float64, gamma float64) float64 {
-- 
2.43.0


From f548f96527d123cc8fd67e117ff03155c7f63426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 04/94] fix: reset the statistics manager completely on init
 and keep the weight sum on clear

---
 SmartCache/sim/cache/files/stats.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/SmartCache/sim/cache/files/stats.go b/SmartCache/sim/cache/files/stats.go
index af76330..db1dcb6 100644
--- a/SmartCache/sim/cache/files/stats.go
+++ b/SmartCache/sim/cache/files/stats.go
@@ -30,6 +30,10 @@ type Manager struct {
 func (s *Manager) Init(maxNumDayDiff float64, deltaDaysStep float64, calcWeight bool) {
 	s.Data = make(map[int64]*Stats, estimatedNumFiles)
 	s.deletedFileMiss = make(map[int64]int, estimatedNumFiles)
+	s.deletedFilesMissLastCount = 0
+	s.weightSum = 0.0
+	s.firstUpdateTime = time.Time{}
+	s.lastUpdateTime = time.Time{}
 	s.calcWeight = calcWeight
 	s.maxNumDayDiff = maxNumDayDiff
 	s.deltaDaysStep = deltaDaysStep
@@ -72,7 +76,6 @@ func (s *Manager) Clear() {
 	for _, fileStats := range s.Data {
 		fileStats.Recency = 0
 	}
-	s.weightSum = 0.0
 }
 
 // Dirty indicates if the stats needs a purge
-- 
2.43.0


From ab99a3e37614432230ca41ecc02897befccf0775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 05/94] fix: load dumped file statistics under the name of
 their file

---
 SmartCache/sim/cache/aiRL.go        | 6 +++---
 SmartCache/sim/cache/simpleCache.go | 6 +++---
 SmartCache/sim/cache/weightFun.go   | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index a1a1dc0..8af00c5 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -363,12 +363,12 @@ func (cache *AIRL) Loads(inputString [][]byte, vars ...interface{}) {
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
 			queue.Insert(cache.files, &curFileStats)
 			cache.size += curFileStats.Size
-			cache.stats.Data[curRecord.Filename] = &curFileStats
+			cache.stats.Data[curFileStats.Filename] = &curFileStats
 		case "STATS":
 			var curFileStats files.Stats
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
-			if _, inStats := cache.stats.Data[curRecord.Filename]; !inStats {
-				cache.stats.Data[curRecord.Filename] = &curFileStats
+			if _, inStats := cache.stats.Data[curFileStats.Filename]; !inStats {
+				cache.stats.Data[curFileStats.Filename] = &curFileStats
 			}
 		case "ADDAGENT":
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &cache.additionAgent)
diff --git a/SmartCache/sim/cache/simpleCache.go b/SmartCache/sim/cache/simpleCache.go
index dc4b80c..9a1e1a5 100644
--- a/SmartCache/sim/cache/simpleCache.go
+++ b/SmartCache/sim/cache/simpleCache.go
@@ -305,15 +305,15 @@ func (cache *SimpleCache) Loads(inputString [][]byte, _ ...interface{}) {
 				panic(unmarshalErr)
 			}
 			cache.size += curFileStats.Size
-			cache.stats.Data[curRecord.Filename] = &curFileStats
+			cache.stats.Data[curFileStats.Filename] = &curFileStats
 		case "STATS":
 			var curFileStats files.Stats
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
 			if unmarshalErr != nil {
 				panic(unmarshalErr)
 			}
-			if _, inStats := cache.stats.Data[curRecord.Filename]; !inStats {
-				cache.stats.Data[curRecord.Filename] = &curFileStats
+			if _, inStats := cache.stats.Data[curFileStats.Filename]; !inStats {
+				cache.stats.Data[curFileStats.Filename] = &curFileStats
 			}
 		}
 	}
diff --git a/SmartCache/sim/cache/weightFun.go b/SmartCache/sim/cache/weightFun.go
index d85cba6..3111fc2 100644
--- a/SmartCache/sim/cache/weightFun.go
+++ b/SmartCache/sim/cache/weightFun.go
@@ -105,15 +105,15 @@ func (cache *WeightFun) Loads(inputString [][]byte, _ ...interface{}) {
 			}
 			queue.Insert(cache.files, &curFileStats)
 			cache.size += curFileStats.Size
-			cache.stats.Data[curRecord.Filename] = &curFileStats
+			cache.stats.Data[curFileStats.Filename] = &curFileStats
 		case "STATS":
 			var curFileStats files.Stats
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
 			if unmarshalErr != nil {
 				panic(unmarshalErr)
 			}
-			if _, inStats := cache.stats.Data[curRecord.Filename]; !inStats {
-				cache.stats.Data[curRecord.Filename] = &curFileStats
+			if _, inStats := cache.stats.Data[curFileStats.Filename]; !inStats {
+				cache.stats.Data[curFileStats.Filename] = &curFileStats
 			}
 		}
 	}
-- 
2.43.0


From 310e003c87790e2559bed2a120b3038a13a0ed85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 06/94] fix: dataset verifier cache replaced its queue with an
 uninitialised one

---
 SmartCache/sim/cache/lruDatasetVerifier.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/SmartCache/sim/cache/lruDatasetVerifier.go b/SmartCache/sim/cache/lruDatasetVerifier.go
index eb19b2c..85e0bd1 100644
--- a/SmartCache/sim/cache/lruDatasetVerifier.go
+++ b/SmartCache/sim/cache/lruDatasetVerifier.go
@@ -26,9 +26,6 @@ func (cache *LRUDatasetVerifier) Init(param InitParameters) interface{} {
 	param.QueueType = queue.LRUQueue
 	cache.SimpleCache.Init(param)
 
-	cache.files = &queue.LRU{}
-	cache.stats.Data = make(map[int64]*files.Stats)
-
 	cache.datasetFileMap = make(map[int64]bool)
 	datasetFilePath := param.Dataset2TestPath
 
-- 
2.43.0


From 126f62a3da2ba1db52d59fd63f3a0007a73ee02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 07/94] fix: reload every dumped record of a weighted cache and
 its weight sum

---
 SmartCache/sim/cache/files/stats.go | 13 +++++++++++++
 SmartCache/sim/cache/weightFun.go   | 17 ++++++++++-------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/SmartCache/sim/cache/files/stats.go b/SmartCache/sim/cache/files/stats.go
index db1dcb6..680b9eb 100644
--- a/SmartCache/sim/cache/files/stats.go
+++ b/SmartCache/sim/cache/files/stats.go
@@ -160,6 +160,19 @@ func (s *Manager) GetOrCreate(filename int64, size float64, reqTime time.Time, c
 	return curStats, !inStats
 }
 
+// Restore adds the dumped stats of a file that is not already in the manager
+func (s *Manager) Restore(stats *Stats) {
+	if _, inStats := s.Data[stats.Filename]; inStats {
+		return
+	}
+
+	s.Data[stats.Filename] = stats
+
+	if s.calcWeight {
+		s.weightSum += stats.Weight
+	}
+}
+
 // UpdateWeight update the weight of a file and also the sum of all weights
 func (s *Manager) UpdateWeight(stats *Stats, newFile bool, wFun functions.WeightFun, alpha float64, beta float64, gamma float64) {
 	if newFile {
diff --git a/SmartCache/sim/cache/weightFun.go b/SmartCache/sim/cache/weightFun.go
index 3111fc2..fbf7b26 100644
--- a/SmartCache/sim/cache/weightFun.go
+++ b/SmartCache/sim/cache/weightFun.go
@@ -93,9 +93,14 @@ func (cache *WeightFun) Loads(inputString [][]byte, _ ...interface{}) {
 		unmarshalErr  error
 	)
 	for _, record := range inputString {
-		buffer := record[:len(record)-1]
-		json.Unmarshal(buffer, &curRecord)
-		json.Unmarshal([]byte(curRecord.Info), &curRecordInfo)
+		unmarshalErr = json.Unmarshal(record, &curRecord)
+		if unmarshalErr != nil {
+			panic(unmarshalErr)
+		}
+		unmarshalErr = json.Unmarshal([]byte(curRecord.Info), &curRecordInfo)
+		if unmarshalErr != nil {
+			panic(unmarshalErr)
+		}
 		switch curRecordInfo.Type {
 		case "FILES":
 			var curFileStats files.Stats
@@ -105,16 +110,14 @@ func (cache *WeightFun) Loads(inputString [][]byte, _ ...interface{}) {
 			}
 			queue.Insert(cache.files, &curFileStats)
 			cache.size += curFileStats.Size
-			cache.stats.Data[curFileStats.Filename] = &curFileStats
+			cache.stats.Restore(&curFileStats)
 		case "STATS":
 			var curFileStats files.Stats
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
 			if unmarshalErr != nil {
 				panic(unmarshalErr)
 			}
-			if _, inStats := cache.stats.Data[curFileStats.Filename]; !inStats {
-				cache.stats.Data[curFileStats.Filename] = &curFileStats
-			}
+			cache.stats.Restore(&curFileStats)
 		}
 	}
 }
-- 
2.43.0


From a956336a0d78354f7e7595c7d1dc7d2198ff83ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 08/94] fix: dump and reload the files and statistics of the
 neural network cache

---
 SmartCache/sim/cache/aiNN.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/SmartCache/sim/cache/aiNN.go b/SmartCache/sim/cache/aiNN.go
index e8ad18b..5ad7399 100644
--- a/SmartCache/sim/cache/aiNN.go
+++ b/SmartCache/sim/cache/aiNN.go
@@ -81,7 +81,7 @@ func (cache *AINN) Dumps(fileAndStats bool) [][]byte {
 	if fileAndStats {
 		// ----- Files -----
 		cache.logger.Info("Dump cache files")
-		for file := range queue.Get(cache.files) {
+		for _, file := range queue.GetFromWorst(cache.files) {
 			dumpInfo, _ := json.Marshal(DumpInfo{Type: "FILES"})
 			dumpFile, _ := json.Marshal(file)
 			record, _ := json.Marshal(DumpRecord{
@@ -110,21 +110,39 @@ func (cache *AINN) Dumps(fileAndStats bool) [][]byte {
 
 // Loads the AINN cache
 func (cache *AINN) Loads(inputString [][]byte, _ ...interface{}) {
-	var curRecord DumpRecord
-	var curRecordInfo DumpInfo
+	var (
+		curRecord     DumpRecord
+		curRecordInfo DumpInfo
+		unmarshalErr  error
+	)
 
 	for _, record := range inputString {
-		buffer := record[:len(record)-1]
-		json.Unmarshal(buffer, &curRecord)
-		json.Unmarshal([]byte(curRecord.Info), &curRecordInfo)
+		unmarshalErr = json.Unmarshal(record, &curRecord)
+		if unmarshalErr != nil {
+			panic(unmarshalErr)
+		}
+		unmarshalErr = json.Unmarshal([]byte(curRecord.Info), &curRecordInfo)
+		if unmarshalErr != nil {
+			panic(unmarshalErr)
+		}
+
 		switch curRecordInfo.Type {
 		case "FILES":
 			var curFile files.Stats
-			json.Unmarshal([]byte(curRecord.Data), &curFile)
+			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFile)
+			if unmarshalErr != nil {
+				panic(unmarshalErr)
+			}
 			queue.Insert(cache.files, &curFile)
 			cache.size += curFile.Size
+			cache.stats.Restore(&curFile)
 		case "STATS":
-			json.Unmarshal([]byte(curRecord.Data), &cache.stats.Data)
+			var curFile files.Stats
+			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFile)
+			if unmarshalErr != nil {
+				panic(unmarshalErr)
+			}
+			cache.stats.Restore(&curFile)
 		}
 	}
 }
-- 
2.43.0


From 6b7234d5c8032e227d03e424e7d59a0947e20292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 09/94] fix: read the exit code and the other job fields of the
 trace records

---
 SmartCache/sim/cache/simulation.go | 52 ++++++++++++++++++------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/SmartCache/sim/cache/simulation.go b/SmartCache/sim/cache/simulation.go
index cf3909c..92c4bb8 100644
--- a/SmartCache/sim/cache/simulation.go
+++ b/SmartCache/sim/cache/simulation.go
@@ -128,6 +128,12 @@ func recordGenerator(csvReader *csv.Reader, curFile *os.File, headerMap []int) c
 			taskMonitorID, _ := strconv.ParseInt(record[headerMap[4]], 10, 64)
 			jobID, _ := strconv.ParseInt(record[headerMap[5]], 10, 64)
 			protocol, _ := strconv.ParseInt(record[headerMap[6]], 10, 64)
+			jobExecExitCode, _ := strconv.ParseInt(record[headerMap[7]], 10, 64)
+			jobStart, _ := strconv.ParseInt(record[headerMap[8]], 10, 64)
+			jobEnd, _ := strconv.ParseInt(record[headerMap[9]], 10, 64)
+			numCPU, _ := strconv.ParseInt(record[headerMap[10]], 10, 64)
+			wrapWC, _ := strconv.ParseFloat(record[headerMap[11]], 64)
+			wrapCPU, _ := strconv.ParseFloat(record[headerMap[12]], 64)
 			size, _ := strconv.ParseFloat(record[headerMap[13]], 64)
 			dataType, _ := strconv.ParseInt(record[headerMap[14]], 10, 64)
 			fileType, _ := strconv.ParseInt(record[headerMap[15]], 10, 64)
@@ -144,26 +150,32 @@ func recordGenerator(csvReader *csv.Reader, curFile *os.File, headerMap []int) c
 			sizeInMegabytes := size / (1024. * 1024.)
 
 			curRecord := CSVRecord{
-				Day:           int64(day),
-				Region:        region,
-				Filename:      filename,
-				FileType:      fileType,
-				DataType:      dataType,
-				Protocol:      protocol,
-				TaskMonitorID: taskMonitorID,
-				TaskID:        taskID,
-				JobID:         jobID,
-				SiteName:      siteName,
-				JobSuccess:    jobSuccess,
-				JobLengthH:    joblengthh,
-				JobLengthM:    joblengthm,
-				UserID:        userID,
-				CPUTime:       cputime,
-				IOTime:        iotime,
-				Size:          size,
-				SizeM:         sizeInMegabytes,
-				Campaign:      campaign,
-				Process:       process,
+				Day:             int64(day),
+				JobExecExitCode: jobExecExitCode,
+				JobStart:        jobStart,
+				JobEnd:          jobEnd,
+				NumCPU:          numCPU,
+				WrapWC:          wrapWC,
+				WrapCPU:         wrapCPU,
+				Region:          region,
+				Filename:        filename,
+				FileType:        fileType,
+				DataType:        dataType,
+				Protocol:        protocol,
+				TaskMonitorID:   taskMonitorID,
+				TaskID:          taskID,
+				JobID:           jobID,
+				SiteName:        siteName,
+				JobSuccess:      jobSuccess,
+				JobLengthH:      joblengthh,
+				JobLengthM:      joblengthm,
+				UserID:          userID,
+				CPUTime:         cputime,
+				IOTime:          iotime,
+				Size:            size,
+				SizeM:           sizeInMegabytes,
+				Campaign:        campaign,
+				Process:         process,
 			}
 
 			// fmt.Println(curRecord)
-- 
2.43.0


From 13d638906abf83685ca5fc14225221b5dce72aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 10/94] fix: read the uncompressed traces of a simulation
 folder

---
 SmartCache/sim/cache/simulation.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/SmartCache/sim/cache/simulation.go b/SmartCache/sim/cache/simulation.go
index 92c4bb8..99b581c 100644
--- a/SmartCache/sim/cache/simulation.go
+++ b/SmartCache/sim/cache/simulation.go
@@ -268,8 +268,7 @@ func OpenSimFolder(dirPath *os.File) chan CSVRecord {
 		for _, name := range fileList {
 			fileExt := path.Ext(name)
 			switch fileExt {
-			case ".csv":
-			case ".gz":
+			case ".csv", ".gz", ".gzip":
 				for record := range OpenSimFile(name) {
 					channel <- record
 				}
-- 
2.43.0


From 95515a20645dae0d3124fcc8d43d12d9d7f59431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 11/94] fix: category figures of a day without requests

---
 SmartCache/sim/cache/aiRL.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index 8af00c5..982d09d 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -1308,10 +1308,18 @@ func writeQTable(outFilename string, data string) {
 }
 
 func (cache *AIRL) meanNumCategories() int {
+	if len(cache.numDailyCategories) == 0 {
+		return 0
+	}
+
 	return cache.sumNumDailyCategories / len(cache.numDailyCategories)
 }
 
 func (cache *AIRL) stdDevNumCategories() float64 {
+	if len(cache.numDailyCategories) == 0 {
+		return 0.
+	}
+
 	var sum int
 
 	mean := cache.meanNumCategories()
-- 
2.43.0


From 7909521689ba52fff7a900233a52361c22aec266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 12/94] fix: parse the features of a feature map always in the
 same order

---
 SmartCache/sim/cache/ai/featuremap/featuremap.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/SmartCache/sim/cache/ai/featuremap/featuremap.go b/SmartCache/sim/cache/ai/featuremap/featuremap.go
index 5523f40..8127f59 100644
--- a/SmartCache/sim/cache/ai/featuremap/featuremap.go
+++ b/SmartCache/sim/cache/ai/featuremap/featuremap.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path/filepath"
 	"reflect"
+	"sort"
 
 	"go.uber.org/zap"
 )
@@ -125,10 +126,16 @@ func (manager *FeatureManager) Populate(featureMapFilePath string) { //nolint:ig
 	manager.FileFeatureIdxMap = make(map[string]int)
 
 	if mainType := reflect.TypeOf(tmpMap).Kind(); mainType == reflect.Map { //nolint:ignore,nestif
-		mapIter := reflect.ValueOf(tmpMap).MapRange()
-		for mapIter.Next() {
-			feature := mapIter.Key().String()
-			curFeature := mapIter.Value()
+		featureValues := reflect.ValueOf(tmpMap)
+		// Sort the features to have the same order for each run
+		featureKeys := featureValues.MapKeys()
+		sort.Slice(featureKeys, func(i, j int) bool {
+			return featureKeys[i].String() < featureKeys[j].String()
+		})
+
+		for _, featureKey := range featureKeys {
+			feature := featureKey.String()
+			curFeature := featureValues.MapIndex(featureKey)
 
 			if featureType := curFeature.Elem().Kind(); featureType == reflect.Map {
 				featureIter := curFeature.Elem().MapRange()
-- 
2.43.0


From a72d82a0233ac4e52d9a5e32aad504745b08193a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 13/94] fix: visit the categories of the eviction agent always
 in the same order

---
 SmartCache/sim/cache/aiRLCatStateManager.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/SmartCache/sim/cache/aiRLCatStateManager.go b/SmartCache/sim/cache/aiRLCatStateManager.go
index 9bc1d45..0db9775 100644
--- a/SmartCache/sim/cache/aiRLCatStateManager.go
+++ b/SmartCache/sim/cache/aiRLCatStateManager.go
@@ -4,6 +4,7 @@ import (
 	"simulator/v2/cache/ai/featuremap"
 	"simulator/v2/cache/ai/qlearn"
 	"simulator/v2/cache/files"
+	"sort"
 )
 
 // CatState is a struct to manage the state of eviction agent starting from categories
@@ -162,7 +163,14 @@ func (catMan *CategoryManager) GetStateFromCategories(newStates bool, agent qlea
 		defer close(catMan.generatorChan)
 		if newStates {
 			catMan.lastStateAction = make(map[int]CatState)
+			// Sort the categories to have the same order for each run
+			catIDs := make([]int, 0, len(catMan.categoryFileListMap))
 			for catID := range catMan.categoryFileListMap {
+				catIDs = append(catIDs, catID)
+			}
+			sort.Ints(catIDs)
+
+			for _, catID := range catIDs {
 				curCat := catMan.categoryFileFeatureIdx[catID]
 				catMan.buffer = catMan.buffer[:0]
 
@@ -210,8 +218,14 @@ func (catMan *CategoryManager) GetStateFromCategories(newStates bool, agent qlea
 				catMan.generatorChan <- curCatState
 			}
 		} else {
-			for _, curCatState := range catMan.lastStateAction {
-				catMan.generatorChan <- curCatState
+			states := make([]int, 0, len(catMan.lastStateAction))
+			for state := range catMan.lastStateAction {
+				states = append(states, state)
+			}
+			sort.Ints(states)
+
+			for _, state := range states {
+				catMan.generatorChan <- catMan.lastStateAction[state]
 			}
 		}
 	}()
-- 
2.43.0


From 2acdd2b275848e3cd7a67b526bb722d2a3bef9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 14/94] fix: reload and cold start of the reinforcement
 learning cache

---
 SmartCache/sim/cache/ai/qlearn/qlearn.go |  2 +-
 SmartCache/sim/cache/aiRL.go             | 33 ++++++++++++++++++++++++
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/SmartCache/sim/cache/ai/qlearn/qlearn.go b/SmartCache/sim/cache/ai/qlearn/qlearn.go
index 64254cc..82e6df4 100644
--- a/SmartCache/sim/cache/ai/qlearn/qlearn.go
+++ b/SmartCache/sim/cache/ai/qlearn/qlearn.go
@@ -191,7 +191,7 @@ type Choice struct {
 
 // Agent used in Qlearning
 type Agent struct {
-	Memory              map[interface{}][]Choice `json:"memory"`
+	Memory              map[interface{}][]Choice `json:"-"`
 	QTable              QTable                   `json:"qtable"`
 	NumStates           int                      `json:"numStates"`
 	NumVars             int                      `json:"numVars"`
diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index 982d09d..d85903f 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -388,6 +388,39 @@ func (cache *AIRL) Loads(inputString [][]byte, vars ...interface{}) {
 		}
 	}
 
+	cache.resetCategories()
+}
+
+// ClearFiles remove the cache files
+func (cache *AIRL) ClearFiles() {
+	cache.SimpleCache.ClearFiles()
+	cache.resetCategories()
+}
+
+// Clear the AIRL struct, the agents are kept
+func (cache *AIRL) Clear() {
+	cache.SimpleCache.Clear()
+	cache.resetCategories()
+}
+
+// resetCategories rebuilds the file categories from the files in cache
+func (cache *AIRL) resetCategories() {
+	if !cache.evictionAgentOK {
+		return
+	}
+
+	cache.evictionCategoryManager.Init(
+		cache.evictionFeatureManager.Features,
+		cache.evictionFeatureManager.FeatureIdxWeights,
+		cache.evictionFeatureManager.FileFeatures,
+		cache.evictionFeatureManager.FileFeatureIdxWeights,
+		cache.evictionFeatureManager.FileFeatureIdxMap,
+	)
+
+	for _, file := range queue.GetFromWorst(cache.files) {
+		fileCategory := cache.evictionCategoryManager.GetFileCategory(file)
+		cache.evictionCategoryManager.AddOrUpdateCategoryFile(fileCategory, file)
+	}
 }
 
 func (cache *AIRL) getState4AdditionAgent(hit bool, curFileStats *files.Stats) int {
-- 
2.43.0


From 28298dad11601a14af01cb5b47a2df3c96e36e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:42 +0000
Subject: [PATCH 15/94] fix: purge statistics in a reproducible order

The order in which a map yields the old files decided the rounding of the
weight sum, so equal runs of a weighted cache could admit different files.
---
 SmartCache/sim/cache/files/stats.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/SmartCache/sim/cache/files/stats.go b/SmartCache/sim/cache/files/stats.go
index 680b9eb..c51cabc 100644
--- a/SmartCache/sim/cache/files/stats.go
+++ b/SmartCache/sim/cache/files/stats.go
@@ -3,6 +3,7 @@ package files
 import (
 	"math"
 	"simulator/v2/cache/functions"
+	"sort"
 	"time"
 
 	"go.uber.org/zap"
@@ -96,7 +97,7 @@ func (s Manager) Dirty() bool {
 
 // Purge remove older stats
 func (s *Manager) Purge(has func(int64) bool) {
-	numDeletedFiles := 0
+	oldFiles := make([]int64, 0)
 
 	for filename, stats := range s.Data {
 		curFilename := filename
@@ -104,16 +105,22 @@ func (s *Manager) Purge(has func(int64) bool) {
 		if inCache := has(curFilename); !inCache && stats.DiffLastUpdate(s.lastUpdateTime) >= s.maxNumDayDiff {
 			s.logger.Debug("Purge", zap.Bool("in cache", inCache))
 
-			if s.calcWeight {
-				s.weightSum -= stats.Weight
-			}
+			oldFiles = append(oldFiles, filename)
+		}
+	}
 
-			delete(s.Data, filename)
-			numDeletedFiles++
+	// The rounding of the weight sum must not depend on the map order
+	sort.Slice(oldFiles, func(i, j int) bool { return oldFiles[i] < oldFiles[j] })
+
+	for _, filename := range oldFiles {
+		if s.calcWeight {
+			s.weightSum -= s.Data[filename].Weight
 		}
+
+		delete(s.Data, filename)
 	}
 
-	s.logger.Debug("Stats purged", zap.Int("NumDeletedFiles", numDeletedFiles))
+	s.logger.Debug("Stats purged", zap.Int("NumDeletedFiles", len(oldFiles)))
 	s.firstUpdateTime = s.lastUpdateTime
 }
 
-- 
2.43.0


From 8d35497867cf8cbc46d19fa98647421f24322c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 16/94] fix: index boolean and string features by their value

Features2Idxs returned the first bucket for every boolean or string value.
---
 SmartCache/sim/cache/ai/qlearn/qlearn.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/SmartCache/sim/cache/ai/qlearn/qlearn.go b/SmartCache/sim/cache/ai/qlearn/qlearn.go
index 82e6df4..e465493 100644
--- a/SmartCache/sim/cache/ai/qlearn/qlearn.go
+++ b/SmartCache/sim/cache/ai/qlearn/qlearn.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 	"math"
 	"math/rand"
-	"reflect"
 	"simulator/v2/cache/ai/featuremap"
 	"strings"
 
@@ -159,12 +158,7 @@ func (table QTable) Features2Idxs(features ...interface{}) []int {
 
 	for idx, val := range features {
 		// fmt.Println(idx, val, table.FeatureManager.Features[idx].Type)
-		switch table.FeatureManager.Features[idx].ReflectType {
-		case reflect.Int64:
-			featureIdxs[idx] = table.FeatureManager.Features[idx].Index(val.(int64))
-		case reflect.Float64:
-			featureIdxs[idx] = table.FeatureManager.Features[idx].Index(val.(float64))
-		}
+		featureIdxs[idx] = table.FeatureManager.Features[idx].Index(val)
 	}
 
 	return featureIdxs
-- 
2.43.0


From aefc83aa5ca8bba6b5ce4e32c6e2ab3c3b4ce4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 17/94] fix: log the admissions of the weighted, dataset and
 infinite caches

---
 SmartCache/sim/cache/infiniteCache.go      |  2 ++
 SmartCache/sim/cache/lruDatasetVerifier.go |  3 +++
 SmartCache/sim/cache/simpleCache.go        | 16 ++++++++++++++++
 SmartCache/sim/cache/weightFun.go          |  2 ++
 4 files changed, 23 insertions(+)

diff --git a/SmartCache/sim/cache/infiniteCache.go b/SmartCache/sim/cache/infiniteCache.go
index b07f8f2..8327bd3 100644
--- a/SmartCache/sim/cache/infiniteCache.go
+++ b/SmartCache/sim/cache/infiniteCache.go
@@ -41,6 +41,8 @@ func (cache *InfiniteCache) UpdatePolicy(request *Request, fileStats *files.Stat
 
 		cache.size += requestedFileSize
 		cache.MaxSize += requestedFileSize
+
+		cache.logAdd(fileStats)
 	}
 
 	return added
diff --git a/SmartCache/sim/cache/lruDatasetVerifier.go b/SmartCache/sim/cache/lruDatasetVerifier.go
index 85e0bd1..4198355 100644
--- a/SmartCache/sim/cache/lruDatasetVerifier.go
+++ b/SmartCache/sim/cache/lruDatasetVerifier.go
@@ -71,6 +71,9 @@ func (cache *LRUDatasetVerifier) UpdatePolicy(request *Request, fileStats *files
 				queue.Insert(cache.files, fileStats)
 
 				cache.size += requestedFileSize
+
+				cache.logAdd(fileStats)
+
 				added = true
 			}
 		}
diff --git a/SmartCache/sim/cache/simpleCache.go b/SmartCache/sim/cache/simpleCache.go
index 9a1e1a5..7ff1f97 100644
--- a/SmartCache/sim/cache/simpleCache.go
+++ b/SmartCache/sim/cache/simpleCache.go
@@ -808,6 +808,22 @@ func (cache *SimpleCache) NumHits() int64 {
 	return int64(cache.hit)
 }
 
+// logAdd writes in the simulation log that a file was admitted
+func (cache *SimpleCache) logAdd(fileStats *files.Stats) {
+	if cache.logFile != nil {
+		cache.toLogBuffer([]string{
+			fmt.Sprintf("%d", cache.tick),
+			ChoiceAdd,
+			fmt.Sprintf("%0.2f", cache.size),
+			fmt.Sprintf("%0.2f", cache.Capacity()),
+			fmt.Sprintf("%d", fileStats.Filename),
+			fmt.Sprintf("%0.2f", fileStats.Size),
+			fmt.Sprintf("%d", fileStats.Frequency),
+			fmt.Sprintf("%d", fileStats.DeltaLastRequest),
+		})
+	}
+}
+
 func (cache *SimpleCache) toLogBuffer(curChoice []string) {
 	cache.logBuffer <- curChoice
 }
diff --git a/SmartCache/sim/cache/weightFun.go b/SmartCache/sim/cache/weightFun.go
index fbf7b26..2b71f78 100644
--- a/SmartCache/sim/cache/weightFun.go
+++ b/SmartCache/sim/cache/weightFun.go
@@ -163,6 +163,8 @@ func (cache *WeightFun) UpdatePolicy(request *Request, fileStats *files.Stats, h
 
 			queue.Insert(cache.files, fileStats)
 
+			cache.logAdd(fileStats)
+
 			added = true
 		}
 	} else {
-- 
2.43.0


From 70c02ecba9dbf27e6ae411efd816a49cf5100c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 18/94] fix: softmax of large values overflowed to NaN

---
 SmartCache/sim/cache/ai/neuralnet/neuralnet.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/SmartCache/sim/cache/ai/neuralnet/neuralnet.go b/SmartCache/sim/cache/ai/neuralnet/neuralnet.go
index b1a6280..15a027b 100644
--- a/SmartCache/sim/cache/ai/neuralnet/neuralnet.go
+++ b/SmartCache/sim/cache/ai/neuralnet/neuralnet.go
@@ -57,12 +57,23 @@ func hardSigmoid(x float64) float64 {
 func softMax(matrix mat.Matrix) *mat.Dense {
 	// Implement the softMax for 2D matrices. The formula is:
 	//  S(y_i) = e^(y_i) / sum(e^(y_i))
+	// The maximum of the row is subtracted from all its values, which leaves the
+	// result unchanged and avoids the overflow of the exponentials
 
 	var expVector mat.Dense
 
+	rowMax := func(row int) float64 {
+		_, columns := matrix.Dims()
+		max := matrix.At(row, 0)
+		for column := 1; column < columns; column++ {
+			max = math.Max(max, matrix.At(row, column))
+		}
+		return max
+	}
+
 	// mat.Dens.Exp works only for 2D matrices so this applyVectorExp function
 	// is used to manage a vector
-	applyVectorExp := func(_ int, _ int, v float64) float64 { return math.Exp(v) }
+	applyVectorExp := func(row int, _ int, v float64) float64 { return math.Exp(v - rowMax(row)) }
 	expVector.Apply(applyVectorExp, matrix)
 
 	rows, columns := expVector.Dims()
-- 
2.43.0


From bdf333d046ef6863dbfd578646aa6ff1f4989c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 19/94] fix: predicted class of a model without softmax was
 always the first

---
 SmartCache/sim/cache/ai/neuralnet/neuralnet.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/SmartCache/sim/cache/ai/neuralnet/neuralnet.go b/SmartCache/sim/cache/ai/neuralnet/neuralnet.go
index 15a027b..236df4e 100644
--- a/SmartCache/sim/cache/ai/neuralnet/neuralnet.go
+++ b/SmartCache/sim/cache/ai/neuralnet/neuralnet.go
@@ -218,11 +218,12 @@ func (model AIModel) Predict(input *mat.Dense) *mat.Dense {
 
 // GetPredictionArgMax returns the index of the maximum value in the Dense vector
 func GetPredictionArgMax(input *mat.Dense) int {
-	_, d1 := input.Dims()
+	// The output is a row after a softmax and a column after the other activations
+	d0, d1 := input.Dims()
 	maxIdx := 0
 	maxVal := input.At(0, 0)
-	for idx := 1; idx < d1; idx++ {
-		curVal := input.At(0, idx)
+	for idx := 1; idx < d0*d1; idx++ {
+		curVal := input.At(idx/d1, idx%d1)
 		if curVal > maxVal {
 			maxVal = curVal
 			maxIdx = idx
-- 
2.43.0


From 930a8e7ddd0946b68f708490dfec9f06a32b65da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:32 +0000
Subject: [PATCH 20/94] fix: hash names with characters outside ASCII like the
 simulator does

---
 SmartCache/utils/hash_tool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SmartCache/utils/hash_tool.py b/SmartCache/utils/hash_tool.py
index 06c0f71..909378a 100644
--- a/SmartCache/utils/hash_tool.py
+++ b/SmartCache/utils/hash_tool.py
@@ -6,7 +6,7 @@ def hash_hexdigest(string: str, digest_size=8) -> str:
     cur_h = blake2b(
         digest_size=digest_size
     )
-    cur_h.update(string.encode("ascii"))
+    cur_h.update(string.encode("utf-8"))
     return cur_h.hexdigest()
 
 
-- 
2.43.0


From 50938ee17b685ddc0d029b228e9c2c7157a13daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 21/94] fix: prototype Q-table wrote the value of another
 action

---
 qLearning_smartCache/qtable/qtable.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/qLearning_smartCache/qtable/qtable.go b/qLearning_smartCache/qtable/qtable.go
index 65ffc1f..1b5ff5d 100644
--- a/qLearning_smartCache/qtable/qtable.go
+++ b/qLearning_smartCache/qtable/qtable.go
@@ -162,7 +162,11 @@ func getArgMax(array []float64) int {
 
 // GetAction returns the possible environment action from a state
 func (table QTable) GetAction(stateIdx uint64, action ActionType) float64 {
-	values := table.states[stateIdx]
+	return table.states[stateIdx][table.getActionIdx(action)]
+}
+
+// getActionIdx returns the position of an action in the values of a state
+func (table QTable) getActionIdx(action ActionType) int {
 	outIdx := 0
 	for idx := 0; idx < len(table.actions); idx++ {
 		if table.actions[idx] == action {
@@ -170,7 +174,7 @@ func (table QTable) GetAction(stateIdx uint64, action ActionType) float64 {
 			break
 		}
 	}
-	return values[outIdx]
+	return outIdx
 }
 
 // GetBestAction returns the action of the best action for the given state
@@ -206,5 +210,5 @@ func (table *QTable) Update(state []float64, action ActionType, reward float64)
 	stateIdx := table.GetStateIdx(state)
 	actionValue := table.GetAction(stateIdx, action)
 	maxValue := getArgMax(table.states[stateIdx])
-	table.states[stateIdx][action] = actionValue + table.learningRate*(reward+table.DecayRate*table.states[stateIdx][maxValue]-actionValue)
+	table.states[stateIdx][table.getActionIdx(action)] = actionValue + table.learningRate*(reward+table.DecayRate*table.states[stateIdx][maxValue]-actionValue)
 }
-- 
2.43.0


From f70ea783dd392bb4e5fe6c96028e323d3b2f3031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 22/94] fix: prototype cache never returned from inserting a
 file bigger than itself

---
 qLearning_smartCache/cache/cache.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qLearning_smartCache/cache/cache.go b/qLearning_smartCache/cache/cache.go
index bff1fe8..a5ddf25 100644
--- a/qLearning_smartCache/cache/cache.go
+++ b/qLearning_smartCache/cache/cache.go
@@ -83,6 +83,11 @@ func (cache SimCache) GetPoints() float64 {
 // Insert add a file into the cache. If there is no space left, it starts to
 // remove the files with less value and then adds it when there is space
 func (cache *SimCache) Insert(fileName string, size float64) {
+	// A file bigger than the cache cannot be stored, whatever is removed
+	if size > cache.MaxSize {
+		return
+	}
+
 	if cache.GetSize()+size > cache.MaxSize {
 		for {
 			fileName, _ := cache.GetMinValue()
-- 
2.43.0


From d090fac7977f3e91789854f90078dfffc89038df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 23/94] fix: prototype cache removed files to insert one it
 already held

---
 qLearning_smartCache/cache/cache.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qLearning_smartCache/cache/cache.go b/qLearning_smartCache/cache/cache.go
index a5ddf25..b3c62ba 100644
--- a/qLearning_smartCache/cache/cache.go
+++ b/qLearning_smartCache/cache/cache.go
@@ -88,6 +88,11 @@ func (cache *SimCache) Insert(fileName string, size float64) {
 		return
 	}
 
+	// A file already in the cache does not need other space
+	if _, inCache := cache.files[fileName]; inCache {
+		return
+	}
+
 	if cache.GetSize()+size > cache.MaxSize {
 		for {
 			fileName, _ := cache.GetMinValue()
-- 
2.43.0


From e801487856ebab26881d839e46f98d58d0a31d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:13 +0000
Subject: [PATCH 24/94] fix: read JSON data files with the current json module

---
 DataManager/collector/datafile/json.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index f5b5bba..85ae895 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -234,7 +234,7 @@ class JSONDataFileReader(object):
         for idx, (json_obj, _) in enumerate(iter(self.__get_json, (None, -1)), cur_idx):
             if idx == stop - 1:
                 break
-            yield json.loads(json_obj, encoding="utf-8")
+            yield json.loads(json_obj)
 
     def __getitem__(self, idx):
         """Select an item or a group of item from the file.
@@ -259,7 +259,7 @@ class JSONDataFileReader(object):
             for cur_index in range(-idx):
                 obj, pos = self.__get_json_from_end()
                 if -cur_index - 1 == idx:
-                    return json.loads(obj, encoding="utf-8")
+                    return json.loads(obj)
             raise IndexError
 
         if isinstance(idx, slice):
@@ -290,7 +290,7 @@ class JSONDataFileReader(object):
                 self.__last_index = cur_idx
 
                 if cur_idx == target_idx:
-                    results.append(json.loads(last_obj, encoding="utf-8"))
+                    results.append(json.loads(last_obj))
                     break
 
                 cur_idx += 1
@@ -324,7 +324,7 @@ class JSONDataFileReader(object):
         """
         next_json, _ = self.__get_json()
         if next_json is not None:
-            return json.loads(next_json, encoding="utf-8")
+            return json.loads(next_json)
         else:
             raise StopIteration
 
-- 
2.43.0


From d631d8aae198cf5cc8f2c9739f42b0cbc2c4db2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:13 +0000
Subject: [PATCH 25/94] fix: refuse a string that is not JSON with a meaningful
 error

---
 DataManager/collector/datafile/json.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index 85ae895..ce3a9b4 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -87,7 +87,10 @@ class JSONDataFileWriter(object):
 
         """
         if isinstance(data, str):
-            return self.__write(self.__valid_json(data))
+            valid_json = self.__valid_json(data)
+            if not valid_json:
+                raise Exception("'{}' is not a valid JSON string".format(data))
+            return self.__write(valid_json)
         elif isinstance(data, dict):
             return self.__write(json.dumps(data))
         elif isinstance(data, (list, GeneratorType)):
-- 
2.43.0


From c0aba6125ea0f4509e270fa2aa84878b0956869a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:13 +0000
Subject: [PATCH 26/94] fix: select records of JSON data files by negative
 index

---
 DataManager/collector/datafile/json.py | 26 +++-----------------------
 1 file changed, 3 insertions(+), 23 deletions(-)

diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index ce3a9b4..1e610dc 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -178,24 +178,6 @@ class JSONDataFileReader(object):
             self.__len = num_lines
         return self.__len
 
-    def __get_json_from_end(self, step: int = 1024):
-        buffer = b''
-        index = -step - 1
-        cur_chars = b''
-        while cur_chars.rfind(b'\n') == -1:
-            self.__descriptor.seek(index, 2)
-            last_pos = self.__descriptor.tell()
-            cur_chars = self.__descriptor.read(step)
-            buffer = cur_chars + buffer
-            index -= step
-        if len(buffer) >= 2:
-            return (
-                buffer[cur_chars.rfind(b'\n')+1:], last_pos +
-                cur_chars.rfind(b'\n')
-            )
-        else:
-            return (None, -1)
-
     def __get_json(self):
         """Extract a json object string from the file.
 
@@ -259,11 +241,9 @@ class JSONDataFileReader(object):
             idx, (int, slice)), "Index Could be an integer or a slice"
 
         if isinstance(idx, int) and idx < 0:
-            for cur_index in range(-idx):
-                obj, pos = self.__get_json_from_end()
-                if -cur_index - 1 == idx:
-                    return json.loads(obj)
-            raise IndexError
+            idx += len(self)
+            if idx < 0:
+                raise IndexError
 
         if isinstance(idx, slice):
             to_extract = (elm for elm in gen_increasing_slice(idx))
-- 
2.43.0


From 06b032c7fa6db00169f9ecc62d8b8f6175cc6ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:13 +0000
Subject: [PATCH 27/94] fix: append to compressed JSON data files

---
 DataManager/collector/datafile/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index 1e610dc..747ffee 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -35,7 +35,7 @@ class JSONDataFileWriter(object):
                 self.__descriptor = get_or_create_descriptor(
                     self.__filename, "wb")
 
-        if append:
+        elif append:
             self.__descriptor.seek(0, 2)
 
         if data is not None:
-- 
2.43.0


From d49ddf001984b636ac593e5ea41282ffdf4475ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:13 +0000
Subject: [PATCH 28/94] fix: open in-memory JSON data files as streams

---
 DataManager/collector/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/collector/api.py b/DataManager/collector/api.py
index 6cbdd48..1b0ef1d 100644
--- a/DataManager/collector/api.py
+++ b/DataManager/collector/api.py
@@ -43,7 +43,7 @@ class DataFile(object):
             if tmp.find("avro.schema") != -1:
                 return AvroDataFileReader(source)
             else:
-                return JSONDataFileReader(source)
+                return JSONDataFileReader(descriptor=source)
         elif isinstance(source, AvroDataFileWriter):
             tmp = BytesIO(source.raw_data)
             return AvroDataFileReader(tmp)
-- 
2.43.0


From 0073e4ef54c075b5dd9b483b35ddc606be9f1fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 29/94] fix: Python LRU cache ended on a file bigger than the
 cache

---
 SmartCache/pySim/cache.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SmartCache/pySim/cache.py b/SmartCache/pySim/cache.py
index f7b5622..9d8e6db 100644
--- a/SmartCache/pySim/cache.py
+++ b/SmartCache/pySim/cache.py
@@ -99,6 +99,8 @@ class LRU(object):
                 self._queue.append(filename)
                 self._size += file_stats.size
                 return True
+            elif file_stats.size > self._max_size:
+                return False
             else:
                 while self._size + file_stats.size > self._max_size:
                     to_remove = self._queue.pop(0)
-- 
2.43.0


From 2bc6836f2c8aa6dbb491451ca46a84868991fa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 30/94] fix: build and reload popularity records with a valid
 file name

---
 DataManager/collector/datafeatures/extractor.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/DataManager/collector/datafeatures/extractor.py b/DataManager/collector/datafeatures/extractor.py
index f19f088..2a8059f 100644
--- a/DataManager/collector/datafeatures/extractor.py
+++ b/DataManager/collector/datafeatures/extractor.py
@@ -98,7 +98,6 @@ class CMSDataPopularity(FeatureData):
                  ):
         super(CMSDataPopularity, self).__init__()
         self.__data = data
-        self.__id = None
         self.__valid = False
         self.__filters = filters
         self.__extract_features()
@@ -107,7 +106,7 @@ class CMSDataPopularity(FeatureData):
         """Make object loaded by pickle."""
         self.__data = state['data']
         self._features = state['features']
-        self.__id = state['id']
+        self._id = state['id']
         self.__valid = state['valid']
         return self
 
@@ -115,7 +114,7 @@ class CMSDataPopularity(FeatureData):
         return {
             'data': self.__data,
             'features': self._features,
-            'id': self.__id,
+            'id': self._id,
             'valid': self.__valid,
         }
 
@@ -143,7 +142,7 @@ class CMSDataPopularity(FeatureData):
                     [fun(self.feature[name]) for name, fun in self.__filters]
                 )
                 if self.__valid:
-                    self.__gen_id()
+                    self._gen_id()
             except ValueError as err:
                 print(
                     "Cannot extract features from '{}'".format(cur_file))
-- 
2.43.0


From 9679df020cb5bb5ba7922f4e893ee295a0f5216e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 31/94] fix: identity of reloaded raw popularity records

---
 DataManager/collector/datafeatures/extractor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DataManager/collector/datafeatures/extractor.py b/DataManager/collector/datafeatures/extractor.py
index 2a8059f..e54c8a3 100644
--- a/DataManager/collector/datafeatures/extractor.py
+++ b/DataManager/collector/datafeatures/extractor.py
@@ -207,6 +207,7 @@ class CMSDataPopularityRaw(FeatureData):
         ]
     ):
         super(CMSDataPopularityRaw, self).__init__()
+        self.__id = None
         self.__valid = False
         if data:
             self.__id = data[feature_list[0]]
@@ -219,6 +220,7 @@ class CMSDataPopularityRaw(FeatureData):
 
     def __setstate__(self, state) -> 'CMSDataPopularityRaw':
         """Make object loaded by pickle."""
+        self._id = None
         self._features = state['features']
         self.__id = state['id']
         self.__valid = state['valid']
@@ -233,6 +235,7 @@ class CMSDataPopularityRaw(FeatureData):
 
     def loads(self, input_string) -> 'CMSDataPopularityRaw':
         data = json.loads(input_string)
+        self._id = None
         self._features = data['features']
         self.__id = data['id']
         self.__valid = data['valid']
-- 
2.43.0


From 2d46ef06cecb7d7761b8e70f0820d28adf1d1015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 32/94] fix: keep the hit counter of reloaded score records

---
 DataManager/collector/datafeatures/extractor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DataManager/collector/datafeatures/extractor.py b/DataManager/collector/datafeatures/extractor.py
index e54c8a3..5344d8f 100644
--- a/DataManager/collector/datafeatures/extractor.py
+++ b/DataManager/collector/datafeatures/extractor.py
@@ -31,6 +31,7 @@ class CMSRecordTest0(FeatureData):
         return {
             'tot_wrap_cpu': self.__tot_wrap_cpu,
             'tot_requests': self.__tot_requests,
+            'num_next_window_hits': self.__num_next_window_hits,
             'features': self._features,
             'class': self.__class,
             'id': self._id
@@ -45,6 +46,7 @@ class CMSRecordTest0(FeatureData):
         """Make object loaded by pickle."""
         self.__tot_wrap_cpu = state['tot_wrap_cpu']
         self.__tot_requests = state['tot_requests']
+        self.__num_next_window_hits = state.get('num_next_window_hits', 0)
         self._features = state['features']
         self.__class = state['class']
         self._id = state['id']
@@ -53,6 +55,7 @@ class CMSRecordTest0(FeatureData):
     def load(self, data: dict) -> 'CMSRecordTest0':
         self.__tot_wrap_cpu = data['tot_wrap_cpu']
         self.__tot_requests = data['tot_requests']
+        self.__num_next_window_hits = data.get('num_next_window_hits', 0)
         self._features = data['features']
         self.__class = data['class']
         self._id = data['id']
-- 
2.43.0


From 9950f15cfc7c35113496e92cb2356d5d961ddbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 33/94] fix: renew the identifier of a record when a feature is
 added

---
 DataManager/collector/datafeatures/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DataManager/collector/datafeatures/utils.py b/DataManager/collector/datafeatures/utils.py
index 568a924..4788268 100644
--- a/DataManager/collector/datafeatures/utils.py
+++ b/DataManager/collector/datafeatures/utils.py
@@ -15,6 +15,7 @@ class FeatureData(object):
     def add_feature(self, name, value):
         """Insert a feature."""
         self._features[name] = value
+        self._id = None
 
     def __getstate__(self):
         """Make object serializable by pickle.
-- 
2.43.0


From 2053007bd25c05efd95afa4d9aebd601ffa0bb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:43 +0000
Subject: [PATCH 34/94] fix: read exactly the configuration file that was named

---
 SmartCache/sim/main.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/SmartCache/sim/main.go b/SmartCache/sim/main.go
index 833bb63..3db4426 100644
--- a/SmartCache/sim/main.go
+++ b/SmartCache/sim/main.go
@@ -29,10 +29,9 @@ var (
 	buildstamp string
 )
 
-func configureViper(configFilenameWithNoExt string) { //nolint:ignore,funlen
-	viper.SetConfigName(configFilenameWithNoExt) // name of config file (without extension)
-	viper.SetConfigType("yaml")                  // REQUIRED if the config file does not have the extension in the name
-	viper.AddConfigPath(".")                     // optionally look for config in the working directory
+func configureViper(configFilename string) { //nolint:ignore,funlen
+	viper.SetConfigFile(configFilename) // exactly the given file, not one with the same name and another extension
+	viper.SetConfigType("yaml")         // REQUIRED if the config file does not have the extension in the name
 
 	viper.SetDefault("sim.region", "all")
 	viper.SetDefault("sim.outputFolder", ".")
@@ -213,12 +212,10 @@ func simCommand() *cobra.Command { //nolint:ignore,funlen
 			}
 			configDir := filepath.Dir(configAbsPath)
 			configFilename := filepath.Base(configAbsPath)
-			configFilenameWithNoExt := strings.TrimSuffix(configFilename, filepath.Ext(configFilename))
 
 			logger.Info("Config file ABS path", zap.String("path", configAbsPath))
 			logger.Info("Config file Directory", zap.String("path", configDir))
 			logger.Info("Config filename", zap.String("file", configFilename))
-			logger.Info("Config filename without extension", zap.String("file", configFilenameWithNoExt))
 
 			logger.Info("Change dir moving on config parent folder", zap.String("path", configDir))
 			errChdir := os.Chdir(configDir)
@@ -229,7 +226,7 @@ func simCommand() *cobra.Command { //nolint:ignore,funlen
 			logger.Info("Current Working Dir", zap.String("path", curWd))
 
 			logger.Info("Load config file")
-			configureViper(configFilenameWithNoExt)
+			configureViper(configFilename)
 
 			if err := viper.ReadInConfig(); err != nil {
 				if _, ok := err.(viper.ConfigFileNotFoundError); ok {
-- 
2.43.0


From a6229fe1a4c561916e76a70a8842e00d20aab3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 35/94] fix: take the model and dataset paths from the folder
 of the configuration

---
 SmartCache/sim/main.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/SmartCache/sim/main.go b/SmartCache/sim/main.go
index 3db4426..97384ac 100644
--- a/SmartCache/sim/main.go
+++ b/SmartCache/sim/main.go
@@ -358,9 +358,21 @@ func simCommand() *cobra.Command { //nolint:ignore,funlen
 			logger.Info("CONF_VAR", zap.String("aiFeatureMap", aiFeatureMap))
 
 			dataset2TestPath = viper.GetString("sim.ai.dataset2TestPath")
+			if dataset2TestPath != "" {
+				dataset2TestPath, errAbs = filepath.Abs(dataset2TestPath)
+				if errAbs != nil {
+					panic(errAbs)
+				}
+			}
 			logger.Info("CONF_VAR", zap.String("dataset2TestPath", dataset2TestPath))
 
 			aiModel = viper.GetString("sim.ai.model")
+			if aiModel != "" {
+				aiModel, errAbs = filepath.Abs(aiModel)
+				if errAbs != nil {
+					panic(errAbs)
+				}
+			}
 			logger.Info("CONF_VAR", zap.String("aiModel", aiModel))
 
 			aiRLType = viper.GetString("sim.ai.rl.type")
-- 
2.43.0


From f8f7ff4a24b39e90e1dcf2e84074368217b45d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:27 +0000
Subject: [PATCH 36/94] fix: number the kept results by the folder they are in

---
 SmartCache/sim/cache/simulation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SmartCache/sim/cache/simulation.go b/SmartCache/sim/cache/simulation.go
index 99b581c..147dfbc 100644
--- a/SmartCache/sim/cache/simulation.go
+++ b/SmartCache/sim/cache/simulation.go
@@ -688,7 +688,7 @@ func Simulate(cacheType string, cacheInstance Cache, param SimulationParams) { /
 	if param.LoadDump { //nolint:ignore,nestif
 		logger.Info("Loading cache dump", zap.String("filename", param.LoadDumpFileName))
 
-		latestCacheRun := GetSimulationRunNum(filepath.Dir(param.LoadDumpFileName))
+		latestCacheRun := GetSimulationRunNum(filepath.Dir(param.OutFile))
 
 		renameErr := os.Rename(
 			param.OutFile,
-- 
2.43.0


From 9a20cc0db1e5c4cdca03d796e9004c031cc1dbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:29 +0000
Subject: [PATCH 37/94] fix: rebuild the categories of a reloaded cache in a
 fixed order

---
 SmartCache/sim/cache/aiRL.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index d85903f..366c3cb 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -417,7 +417,11 @@ func (cache *AIRL) resetCategories() {
 		cache.evictionFeatureManager.FileFeatureIdxMap,
 	)
 
-	for _, file := range queue.GetFromWorst(cache.files) {
+	// The files have no order in the queue, sort them to have the same categories in each run
+	cachedFiles := append([]*files.Stats{}, queue.GetFromWorst(cache.files)...)
+	sort.Slice(cachedFiles, func(i, j int) bool { return cachedFiles[i].Filename < cachedFiles[j].Filename })
+
+	for _, file := range cachedFiles {
 		fileCategory := cache.evictionCategoryManager.GetFileCategory(file)
 		cache.evictionCategoryManager.AddOrUpdateCategoryFile(fileCategory, file)
 	}
-- 
2.43.0


From 03a0248afa7f281a19fbed7afcbddc36704ad916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:19 +0000
Subject: [PATCH 38/94] fix: dump the statistics in a reproducible order

---
 SmartCache/sim/cache/aiNN.go        |  3 ++-
 SmartCache/sim/cache/aiRL.go        |  3 ++-
 SmartCache/sim/cache/files/stats.go | 12 ++++++++++++
 SmartCache/sim/cache/simpleCache.go |  3 ++-
 SmartCache/sim/cache/weightFun.go   |  3 ++-
 5 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/SmartCache/sim/cache/aiNN.go b/SmartCache/sim/cache/aiNN.go
index 5ad7399..a73c70e 100644
--- a/SmartCache/sim/cache/aiNN.go
+++ b/SmartCache/sim/cache/aiNN.go
@@ -93,7 +93,8 @@ func (cache *AINN) Dumps(fileAndStats bool) [][]byte {
 		}
 		// ----- Stats -----
 		cache.logger.Info("Dump cache stats")
-		for _, stats := range cache.stats.Data {
+		for _, filename := range cache.stats.Filenames() {
+			stats := cache.stats.Data[filename]
 			dumpInfo, _ := json.Marshal(DumpInfo{Type: "STATS"})
 			dumpStats, _ := json.Marshal(stats)
 			record, _ := json.Marshal(DumpRecord{
diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index 366c3cb..0086c49 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -253,7 +253,8 @@ func (cache *AIRL) Dumps(fileAndStats bool) [][]byte { //nolint:funlen
 		}
 		// ----- Stats -----
 		cache.logger.Info("Dump cache stats")
-		for filename, stats := range cache.stats.Data {
+		for _, filename := range cache.stats.Filenames() {
+			stats := cache.stats.Data[filename]
 			dumpInfo, _ := json.Marshal(DumpInfo{Type: "STATS"})
 			dumpStats, _ := json.Marshal(stats)
 			record, _ := json.Marshal(DumpRecord{
diff --git a/SmartCache/sim/cache/files/stats.go b/SmartCache/sim/cache/files/stats.go
index c51cabc..b81a522 100644
--- a/SmartCache/sim/cache/files/stats.go
+++ b/SmartCache/sim/cache/files/stats.go
@@ -41,6 +41,18 @@ func (s *Manager) Init(maxNumDayDiff float64, deltaDaysStep float64, calcWeight
 	s.logger = zap.L()
 }
 
+// Filenames returns the names of the files in the statistics, always in the same order
+func (s *Manager) Filenames() []int64 {
+	filenames := make([]int64, 0, len(s.Data))
+	for filename := range s.Data {
+		filenames = append(filenames, filename)
+	}
+
+	sort.Slice(filenames, func(i, j int) bool { return filenames[i] < filenames[j] })
+
+	return filenames
+}
+
 func (s *Manager) AddDeletedFileMiss(filename int64) {
 	s.deletedFileMiss[filename] = 0
 }
diff --git a/SmartCache/sim/cache/simpleCache.go b/SmartCache/sim/cache/simpleCache.go
index 7ff1f97..0abc142 100644
--- a/SmartCache/sim/cache/simpleCache.go
+++ b/SmartCache/sim/cache/simpleCache.go
@@ -239,7 +239,8 @@ func (cache *SimpleCache) Dumps(fileAndStats bool) [][]byte {
 		}
 		// ----- Stats -----
 		cache.logger.Info("Dump cache stats")
-		for filename, stats := range cache.stats.Data {
+		for _, filename := range cache.stats.Filenames() {
+			stats := cache.stats.Data[filename]
 			dumpInfo, _ := json.Marshal(DumpInfo{Type: "STATS"})
 			dumpStats, _ := json.Marshal(stats)
 			record, _ := json.Marshal(DumpRecord{
diff --git a/SmartCache/sim/cache/weightFun.go b/SmartCache/sim/cache/weightFun.go
index 2b71f78..415c1dc 100644
--- a/SmartCache/sim/cache/weightFun.go
+++ b/SmartCache/sim/cache/weightFun.go
@@ -70,7 +70,8 @@ func (cache *WeightFun) Dumps(fileAndStats bool) [][]byte {
 		}
 		// ----- Stats -----
 		cache.logger.Info("Dump cache stats")
-		for _, stats := range cache.stats.Data {
+		for _, filename := range cache.stats.Filenames() {
+			stats := cache.stats.Data[filename]
 			dumpInfo, _ := json.Marshal(DumpInfo{Type: "STATS"})
 			dumpStats, _ := json.Marshal(stats)
 			record, _ := json.Marshal(DumpRecord{
-- 
2.43.0


From 85d5c28bec753c6f02d9bf51536abcfa5767dfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:27 +0000
Subject: [PATCH 39/94] fix: asking a data file for its length keeps the
 position of the iteration

---
 DataManager/collector/datafile/json.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index 747ffee..84e340f 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -173,8 +173,10 @@ class JSONDataFileReader(object):
 
     def __len__(self):
         if not self.__len:
+            cur_pos = self.__descriptor.tell()
             self.__descriptor.seek(0, 0)
             num_lines = self.__descriptor.read().decode("utf-8").count('\n')
+            self.__descriptor.seek(cur_pos, 0)
             self.__len = num_lines
         return self.__len
 
-- 
2.43.0


From 5847c3483c9b5e160abffa763ef497ebcf2bf918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:41 +0000
Subject: [PATCH 40/94] fix: a named avro file can be read back and appended by
 its writer

---
 DataManager/collector/datafile/avro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/collector/datafile/avro.py b/DataManager/collector/datafile/avro.py
index 93ba98f..caad9df 100644
--- a/DataManager/collector/datafile/avro.py
+++ b/DataManager/collector/datafile/avro.py
@@ -30,7 +30,7 @@ class AvroDataFileWriter(object):
         """
         self.__descriptor = None
         if isinstance(file_, str):
-            self.__descriptor = open(file_, 'wb')
+            self.__descriptor = open(file_, 'wb+')
         elif isinstance(file_, (BytesIO, IOBase)):
             self.__descriptor = file_
         else:
-- 
2.43.0


From ed8dde2aa21a29f02e16afd1e05d2df3b00155e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:41 +0000
Subject: [PATCH 41/94] fix: an empty list can be added to an avro file

---
 DataManager/collector/datafile/avro.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DataManager/collector/datafile/avro.py b/DataManager/collector/datafile/avro.py
index caad9df..bf3f46e 100644
--- a/DataManager/collector/datafile/avro.py
+++ b/DataManager/collector/datafile/avro.py
@@ -62,7 +62,8 @@ class AvroDataFileWriter(object):
             self.__write([data])
         elif isinstance(data, list):
             if all(isinstance(elm, dict) for elm in data):
-                self.__write(data)
+                if data:
+                    self.__write(data)
             else:
                 raise Exception(
                     "You can pass only a list of 'dict', not a list of {}".format(
-- 
2.43.0


From edd1f8b02204c2e094286cebee3c413b0617c33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:41 +0000
Subject: [PATCH 42/94] fix: asking an avro file for its length keeps the
 position of the iteration

---
 DataManager/collector/datafile/avro.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DataManager/collector/datafile/avro.py b/DataManager/collector/datafile/avro.py
index bf3f46e..94ee918 100644
--- a/DataManager/collector/datafile/avro.py
+++ b/DataManager/collector/datafile/avro.py
@@ -124,10 +124,13 @@ class AvroDataFileReader(object):
     def __len__(self):
         if not self.__len:
             counter = 0
+            # Keep the position of a possible ongoing iteration
+            position = self.__descriptor.tell()
             self.__descriptor.seek(0, 0)
             print("[Check avro lenght...]")
             for _ in fast_reader(self.__descriptor):
                 counter += 1
+            self.__descriptor.seek(position, 0)
             self.__len = counter
         return self.__len
 
-- 
2.43.0


From 4790b6c09039090c1e1c1f959e922c4c074aa2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:41 +0000
Subject: [PATCH 43/94] fix: JSON data which mention avro.schema are no avro
 file

---
 DataManager/collector/api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DataManager/collector/api.py b/DataManager/collector/api.py
index 1b0ef1d..06f3634 100644
--- a/DataManager/collector/api.py
+++ b/DataManager/collector/api.py
@@ -38,9 +38,10 @@ class DataFile(object):
     @staticmethod
     def __get_collector(source):
         if isinstance(source, BytesIO):
-            tmp = source.read(100).decode("utf-8", errors="ignore")
             source.seek(0)
-            if tmp.find("avro.schema") != -1:
+            magic = source.read(4)
+            source.seek(0)
+            if magic == b"Obj\x01":  # Avro container file
                 return AvroDataFileReader(source)
             else:
                 return JSONDataFileReader(descriptor=source)
-- 
2.43.0


From 1e62ee885c5a142e68d84a50290ad979f43147e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 44/94] fix: deduce avro types which hold any Python integer
 timestamp and float exactly

---
 DataManager/collector/datafile/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DataManager/collector/datafile/utils.py b/DataManager/collector/datafile/utils.py
index 1927b2b..c20d507 100644
--- a/DataManager/collector/datafile/utils.py
+++ b/DataManager/collector/datafile/utils.py
@@ -95,9 +95,9 @@ class AvroObjectTranslator(object):
         if isinstance(value, bool):
             return "boolean"
         elif isinstance(value, int):
-            return "int"
+            return "long"
         elif isinstance(value, float):
-            return "float"
+            return "double"
         elif isinstance(value, str):
             return "string"
         elif isinstance(value, bytes):
-- 
2.43.0


From c478fa0afd774279b2d5f4b6740738f97528d097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:42 +0000
Subject: [PATCH 45/94] fix: deduce avro schemes of nested lists and records

---
 DataManager/collector/datafile/utils.py | 42 ++++++++++++++++++-------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/DataManager/collector/datafile/utils.py b/DataManager/collector/datafile/utils.py
index c20d507..d10a852 100644
--- a/DataManager/collector/datafile/utils.py
+++ b/DataManager/collector/datafile/utils.py
@@ -66,7 +66,7 @@ def get_or_create_descriptor(filename, open_mode='rb'):
 
 class AvroObjectTranslator(object):
 
-    def deduce_scheme(self, obj, lvl: int = 0):
+    def deduce_scheme(self, obj, lvl: int = 0, namespace: str = "translator.avro"):
 
         primitive_type = self.__get_primitive_type(obj)
         if primitive_type != "complex":
@@ -74,22 +74,33 @@ class AvroObjectTranslator(object):
 
         complex_type = self.__get_complex_type(obj)
         if complex_type == 'array':
-            return {'type': complex_type, 'items': self.__get_primitive_type(obj[0])}
+            return {'type': complex_type, 'items': self.__get_inner_type(obj, lvl, namespace)}
         elif complex_type == 'map':
-            return {'type': complex_type, 'values': self.__get_primitive_type(list(obj.values())[0])}
+            return {'type': complex_type, 'values': self.__get_inner_type(list(obj.values()), lvl, namespace)}
         else:
             schema = {
-                "namespace": "translator.avro",
+                "namespace": namespace,
                 'type': "record",
                 'name': "data_lvl_{}".format(lvl),
                 'fields': []
             }
             for key, value in obj.items():
+                # Records of different fields need different full names
                 schema['fields'].append(
-                    {"name": key, "type": self.deduce_scheme(value, lvl + 1)}
+                    {"name": key, "type": self.deduce_scheme(
+                        value, lvl + 1, "{}.{}".format(namespace, key))}
                 )
             return schema
 
+    def __get_inner_type(self, elements: list, lvl: int, namespace: str):
+        """Type of the elements of an array or a map (null if there are none)."""
+        if not elements:
+            return "null"
+        primitive_type = self.__get_primitive_type(elements[0])
+        if primitive_type != "complex":
+            return primitive_type
+        return self.deduce_scheme(elements[0], lvl + 1, namespace)
+
     @staticmethod
     def __get_primitive_type(value):
         if isinstance(value, bool):
@@ -107,20 +118,27 @@ class AvroObjectTranslator(object):
         else:
             return "complex"
 
-    @staticmethod
-    def __get_complex_type(obj):
+    def __have_same_type(self, elements: list) -> bool:
+        if any(type(elm) != type(elements[0]) for elm in elements):
+            return False
+        if elements and isinstance(elements[0], (dict, list)):
+            first_scheme = self.deduce_scheme(elements[0])
+            return all(self.deduce_scheme(elm) == first_scheme for elm in elements)
+        return True
+
+    def __get_complex_type(self, obj):
         if isinstance(obj, dict):
-            first_type = type(list(obj.values())[0])
-            if all([type(elm) == first_type for elm in obj.values()]):
+            if self.__have_same_type(list(obj.values())):
                 return "map"
             else:
                 return "record"
         elif isinstance(obj, list):
-            first_type = type(obj[0])
-            if all([type(elm) == first_type for elm in obj]):
+            if self.__have_same_type(obj):
                 return "array"
             else:
-                return "record"
+                raise Exception(
+                    "Elements of the list {} have different types...".format(obj)
+                )
         else:
             raise Exception(
                 "Unknown type '{}' of object {}...".format(type(obj), obj)
-- 
2.43.0


From b3189015deee0b68c200eb6d4d0b4917d4022534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:43 +0000
Subject: [PATCH 46/94] fix: a stage lost the batch that arrived while all its
 processes were busy

---
 DataManager/collector/dataset/stage.py | 30 ++++++++++++--------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/DataManager/collector/dataset/stage.py b/DataManager/collector/dataset/stage.py
index f0348c3..ad56df2 100644
--- a/DataManager/collector/dataset/stage.py
+++ b/DataManager/collector/dataset/stage.py
@@ -84,22 +84,6 @@ class Stage(BaseSpark):
             output_queue = Queue()
             with yaspin(text="[STAGE][{}]".format(self.name)) as spinner:
                 for cur_input in input_:
-                    if len(tasks) < num_process:
-                        new_process = Process(
-                            target=self.process,
-                            args=(cur_input, output_queue)
-                        )
-                        tasks.append(new_process)
-                        new_process.start()
-                        spinner.write(
-                            "[STAGE][{}][TASK ADDED]".format(self.name))
-                        spinner.write("[STAGE][{}][{} task{} running]".format(
-                            self.name,
-                            len(tasks),
-                            's' if len(tasks) > 1 else ''
-                        ))
-                        continue
-
                     while len(tasks) == num_process:
                         for task in tasks:
                             spinner.text = "[STAGE][{}][{} task{} running]".format(
@@ -116,6 +100,20 @@ class Stage(BaseSpark):
                                 len(tasks),
                                 's' if len(tasks) > 1 else ''
                             )
+
+                    new_process = Process(
+                        target=self.process,
+                        args=(cur_input, output_queue)
+                    )
+                    tasks.append(new_process)
+                    new_process.start()
+                    spinner.write(
+                        "[STAGE][{}][TASK ADDED]".format(self.name))
+                    spinner.write("[STAGE][{}][{} task{} running]".format(
+                        self.name,
+                        len(tasks),
+                        's' if len(tasks) > 1 else ''
+                    ))
                 else:
                     while len(tasks) > 0:
                         for task in tasks:
-- 
2.43.0


From d3e59ea738f469d4a1cb99a7d74c1286cc08830c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:43 +0000
Subject: [PATCH 47/94] fix: the featured and test0 stages hand over records
 their output accepts

---
 DataManager/collector/dataset/stage.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DataManager/collector/dataset/stage.py b/DataManager/collector/dataset/stage.py
index ad56df2..56064d2 100644
--- a/DataManager/collector/dataset/stage.py
+++ b/DataManager/collector/dataset/stage.py
@@ -172,9 +172,9 @@ class CMSRecordTest0Stage(Stage):
 
         if queue:
             for record in tmp.values():
-                queue.put(record.dumps())
+                queue.put(record.to_dict())
         else:
-            return [elm.dumps() for elm in tmp.values()]
+            return [elm.to_dict() for elm in tmp.values()]
 
     def pre_output(self, output):
         tmp = {}
@@ -218,7 +218,7 @@ class CMSFeaturedStage(Stage):
         for record in records:
             new_record = CMSDataPopularity(record['features'])
             if new_record:
-                tmp.append(new_record.dumps())
+                tmp.append(new_record.to_dict())
 
             # Limit processing for test
             # if len(tmp) >= 1000:
-- 
2.43.0


From 7e8fbd7af573f7b2596eca735a582781962ab54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:43 +0000
Subject: [PATCH 48/94] fix: window dates end when the step does not divide the
 window

---
 DataManager/collector/dataset/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/collector/dataset/utils.py b/DataManager/collector/dataset/utils.py
index 856a881..4a4fd2e 100644
--- a/DataManager/collector/dataset/utils.py
+++ b/DataManager/collector/dataset/utils.py
@@ -135,7 +135,7 @@ def gen_window_dates(year: int, month: int, day: int, window_size: int, step: in
     else:
         start_date = date(year, month, day) + window_size
     end_date = start_date + window_size
-    while start_date != end_date:
+    while start_date < end_date:
         yield (start_date.year, start_date.month, start_date.day)
         start_date += window_step
 
-- 
2.43.0


From 5eeabf65d5ee2f467cf2540d96e6e5c36f26bf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:43 +0000
Subject: [PATCH 49/94] fix: stage results are saved as the compressed JSON
 file their name promises

---
 DataManager/collector/dataset/resource.py | 68 +++++++++++------------
 1 file changed, 32 insertions(+), 36 deletions(-)

diff --git a/DataManager/collector/dataset/resource.py b/DataManager/collector/dataset/resource.py
index 27497ef..64fb1da 100644
--- a/DataManager/collector/dataset/resource.py
+++ b/DataManager/collector/dataset/resource.py
@@ -1,6 +1,7 @@
 import os
 from io import BytesIO
 from os import makedirs, path
+from shutil import copyfile
 from tempfile import NamedTemporaryFile
 
 from tqdm import tqdm
@@ -52,18 +53,14 @@ class CMSDatasetResourceManager(Resource):
         return self.gen_batches(DataFile(self.__dataset_path))
 
     def set(self, data: 'DataFile', out_name: str, out_dir: str = 'cache'):
-        with NamedTemporaryFile() as tmp_file:
-            with JSONDataFileWriter(descriptor=tmp_file) as tmp_data:
-                for record in tqdm(data, desc="[Prepare tempfile]"):
-                    tmp_data.append(record)
+        with yaspin(text="[Save Dataset]") as spinner:
+            cur_base_path = out_dir
+            makedirs(cur_base_path, exist_ok=True)
+            with JSONDataFileWriter(path.join(cur_base_path, out_name)) as out_data:
+                for record in data:
+                    out_data.append(record)
 
-                with yaspin(text="[Save Dataset]") as spinner:
-                    cur_base_path = out_dir
-                    makedirs(cur_base_path, exist_ok=True)
-                    with open(path.join(cur_base_path, out_name), 'w') as out_data:
-                        out_data.write(tmp_data.raw_data)
-
-                    spinner.write("[Dataset saved]")
+            spinner.write("[Dataset saved]")
 
 
 class CMSResourceManager(Resource):
@@ -155,31 +152,30 @@ class CMSResourceManager(Resource):
             stage_name
         )
 
-        with NamedTemporaryFile() as tmp_file:
-            with JSONDataFileWriter(descriptor=tmp_file) as tmp_data:
+        with NamedTemporaryFile(suffix=".json.gz") as tmp_file:
+            with JSONDataFileWriter(tmp_file.name) as tmp_data:
                 for record in tqdm(data, desc="[Prepare tempfile]"):
                     tmp_data.append(record)
 
-                with yaspin(text="[Save Dataset]") as spinner:
-                    if self.type == 'local':
-                        cur_base_path = path.join(
-                            self._local_folder,
-                            out_dir
-                        )
-                        makedirs(cur_base_path, exist_ok=True)
-                        with open(path.join(cur_base_path, out_name), 'w') as out_data:
-                            out_data.write(tmp_data.raw_data)
-
-                    elif self.type == 'httpfs':
-                        self._httpfs.create(
-                            "/{}".format(path.join(out_dir, out_name)),
-                            tmp_file.name,
-                            overwrite=True
-                        )
-                    else:
-                        raise Exception(
-                            "Save to '{}' not implemented...".format(
-                                self.type)
-                        )
-
-                    spinner.write("[Dataset saved]")
+            with yaspin(text="[Save Dataset]") as spinner:
+                if self.type == 'local':
+                    cur_base_path = path.join(
+                        self._local_folder,
+                        out_dir
+                    )
+                    makedirs(cur_base_path, exist_ok=True)
+                    copyfile(tmp_file.name, path.join(cur_base_path, out_name))
+
+                elif self.type == 'httpfs':
+                    self._httpfs.create(
+                        "/{}".format(path.join(out_dir, out_name)),
+                        tmp_file.name,
+                        overwrite=True
+                    )
+                else:
+                    raise Exception(
+                        "Save to '{}' not implemented...".format(
+                            self.type)
+                    )
+
+                spinner.write("[Dataset saved]")
-- 
2.43.0


From f5383e0a3c64cbbce7075832267012e024b298b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:43 +0000
Subject: [PATCH 50/94] fix: all the files of a day are read from HTTPFS, not
 only the last one

---
 DataManager/collector/dataset/resource.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DataManager/collector/dataset/resource.py b/DataManager/collector/dataset/resource.py
index 64fb1da..3955fbb 100644
--- a/DataManager/collector/dataset/resource.py
+++ b/DataManager/collector/dataset/resource.py
@@ -123,7 +123,8 @@ class CMSResourceManager(Resource):
                         )
                 ):
                     cur_file = self._httpfs.open(full_path)
-                    collector = DataFile(cur_file)
+                    yield DataFile(cur_file)
+                continue
             elif self._hdfs_base_path:
                 sc = self.spark_context
                 binary_file = sc.binaryFiles("{}/year={:4d}/month={:d}/day={:d}/part-m-00000.avro".format(
-- 
2.43.0


From a5305e3ce4dabb28fb16ca719eca6008c2cbdff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:50 +0000
Subject: [PATCH 51/94] fix: a support table whose indexes are generated again
 forgets the old ones

---
 DataManager/collector/dataset/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DataManager/collector/dataset/utils.py b/DataManager/collector/dataset/utils.py
index 4a4fd2e..7b658e0 100644
--- a/DataManager/collector/dataset/utils.py
+++ b/DataManager/collector/dataset/utils.py
@@ -342,6 +342,11 @@ class SupportTable(object):
         Note: indexes are integer values sorted in ascending order in base
               the value strings.
         """
+        # Forget what was derived from previous indexes
+        SupportTable.get_value.cache_clear()
+        SupportTable.get_close_value.cache_clear()
+        self.__sorted_keys = {}
+        self.__sizes = {}
         for table_name, table in self._tables.items():
             for feature, values in table.items():
                 if table_name not in self._indexed_tables:
-- 
2.43.0


From f1ccbbc6dcd1a673385512db9f468fdd70f465d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:50 +0000
Subject: [PATCH 52/94] fix: a support table keeps its filters when pickled

---
 DataManager/collector/dataset/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DataManager/collector/dataset/utils.py b/DataManager/collector/dataset/utils.py
index 7b658e0..dc69b6c 100644
--- a/DataManager/collector/dataset/utils.py
+++ b/DataManager/collector/dataset/utils.py
@@ -189,6 +189,9 @@ class SupportTable(object):
         """Makes obj pickable."""
         self._tables = state['tables']
         self._indexed_tables = state['indexed_tables']
+        self.filters = ReadableDictAsAttribute({
+            'simple_split': self._filter_simple_split
+        })
         self.__sorted_keys = state['sorted_keys']
         self.__sizes = state['sizes']
 
-- 
2.43.0


From 65840033f4e70d8b88248fe74cc2d511efbdb709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:50 +0000
Subject: [PATCH 53/94] fix: indexes of values which differ only by case do not
 depend on the set order

---
 DataManager/collector/dataset/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/collector/dataset/utils.py b/DataManager/collector/dataset/utils.py
index dc69b6c..03546b4 100644
--- a/DataManager/collector/dataset/utils.py
+++ b/DataManager/collector/dataset/utils.py
@@ -358,7 +358,7 @@ class SupportTable(object):
                     (key, index)
                     for index, key in list(
                         enumerate(
-                            sorted(values, key=lambda elm: elm.lower())
+                            sorted(values, key=lambda elm: (elm.lower(), elm))
                         )
                     )
                 )
-- 
2.43.0


From 98fe98a6e464cb9bacebaad06136dad923fa37b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:50 +0000
Subject: [PATCH 54/94] fix: one hot labels of a train set were ignored

---
 DataManager/collector/dataset/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DataManager/collector/dataset/reader.py b/DataManager/collector/dataset/reader.py
index b3a32a8..a37f202 100644
--- a/DataManager/collector/dataset/reader.py
+++ b/DataManager/collector/dataset/reader.py
@@ -348,7 +348,7 @@ class CMSDatasetTest0Reader(object):
             labels = []
             for record in tqdm(self._collector, desc="[Generate train set]"):
                 features, class_ = self.__translate(
-                    record, normalized, one_hot)
+                    record, normalized, one_hot, one_hot_labels)
                 features_list.append(features)
                 labels.append(class_)
             yield (np.array(features_list), np.array(labels), None)
@@ -363,7 +363,7 @@ class CMSDatasetTest0Reader(object):
 
             for record in tqdm(self._collector, desc="[Generate chunks]"):
                 features, class_ = self.__translate(
-                    record, normalized, one_hot)
+                    record, normalized, one_hot, one_hot_labels)
                 tmp_features.append(features)
                 tmp_labels.append(class_)
                 if len(tmp_features) == chunk_size:
-- 
2.43.0


From 55516d618e4a8f77c691212d02065fee21224f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:50 +0000
Subject: [PATCH 55/94] fix: open buckets are used for all the columns of a
 converter map

---
 DataManager/collector/dataset/reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DataManager/collector/dataset/reader.py b/DataManager/collector/dataset/reader.py
index a37f202..3675d4e 100644
--- a/DataManager/collector/dataset/reader.py
+++ b/DataManager/collector/dataset/reader.py
@@ -87,8 +87,9 @@ class SimulatorDatasetReader(object):
                 if buckets[-1] == "...":
                     cur_map['buckets'] = True
                     cur_map['bucket_open_right'] = True
-                    buckets = buckets[:-1]
-                cur_map['keys'] = buckets
+                    cur_map['keys'] = buckets[:-1]
+                else:
+                    cur_map['keys'] = list(buckets)
             else:
                 cur_map['keys'] = list(
                     set(self._df[column].astype(map_type).to_list())
-- 
2.43.0


From 3eea7e7915629a3eb67e68200149d3f1510cc911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:50 +0000
Subject: [PATCH 56/94] fix: a column with unknown values and open buckets has
 a category for both

---
 DataManager/collector/dataset/reader.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/DataManager/collector/dataset/reader.py b/DataManager/collector/dataset/reader.py
index 3675d4e..6b0b68b 100644
--- a/DataManager/collector/dataset/reader.py
+++ b/DataManager/collector/dataset/reader.py
@@ -200,10 +200,11 @@ class SimulatorDatasetReader(object):
                 if column in self._converter_map:
                     cur_map = self._converter_map[column]
 
-                    if cur_map['unknown_values'] or cur_map['bucket_open_right']:
-                        num_categories = len(cur_map['keys']) + 1
-                    else:
-                        num_categories = len(cur_map['keys'])
+                    num_categories = len(cur_map['keys'])
+                    if cur_map['unknown_values']:
+                        num_categories += 1
+                    if cur_map['bucket_open_right']:
+                        num_categories += 1
 
                     categories = []
                     for value in df[column]:
-- 
2.43.0


From d547e5e6b10f962f55106c90dcba5f11c64e4d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:50 +0000
Subject: [PATCH 57/94] fix: a column without conversion can be joined to the
 other ones

---
 DataManager/collector/dataset/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/collector/dataset/reader.py b/DataManager/collector/dataset/reader.py
index 6b0b68b..2367598 100644
--- a/DataManager/collector/dataset/reader.py
+++ b/DataManager/collector/dataset/reader.py
@@ -227,7 +227,7 @@ class SimulatorDatasetReader(object):
                         ]
                     )
                 else:
-                    cur_data = df[column]
+                    cur_data = df[[column]]
 
                 sp.text = "[Merge data]"
                 if new_df is not None:
-- 
2.43.0


From 835a672024e5c37d15f1dafed8b772bab4b5fb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:33 +0000
Subject: [PATCH 58/94] fix: hdfs paths with characters special to URLs reached
 another path

---
 DataManager/agent/api.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/DataManager/agent/api.py b/DataManager/agent/api.py
index b37c912..c0e3118 100644
--- a/DataManager/agent/api.py
+++ b/DataManager/agent/api.py
@@ -2,6 +2,7 @@ import hashlib
 import io
 import json
 from os import path
+from urllib.parse import quote
 
 import requests
 import urllib3
@@ -59,7 +60,7 @@ class HTTPFS(object):
             "{}{}{}".format(
                 self._server_url,
                 self._api_url,
-                hdfs_path
+                quote(hdfs_path)
             ),
             params={
                 'op': "MKDIRS",
@@ -91,7 +92,7 @@ class HTTPFS(object):
             "{}{}{}".format(
                 self._server_url,
                 self._api_url,
-                hdfs_path
+                quote(hdfs_path)
             ),
             params={
                 'op': "LISTSTATUS",
@@ -130,7 +131,7 @@ class HTTPFS(object):
             "{}{}{}".format(
                 self._server_url,
                 self._api_url,
-                hdfs_path
+                quote(hdfs_path)
             ),
             params={
                 'op': "DELETE",
@@ -165,7 +166,7 @@ class HTTPFS(object):
             "{}{}{}".format(
                 self._server_url,
                 self._api_url,
-                hdfs_path
+                quote(hdfs_path)
             ),
             params={
                 'op': "OPEN",
@@ -208,7 +209,7 @@ class HTTPFS(object):
         file_url = "{}{}{}".format(
             self._server_url,
             self._api_url,
-            hdfs_path
+            quote(hdfs_path)
         )
         res = requests.put(
             file_url,
-- 
2.43.0


From 472acd0d94e780e984edfefac462b01ae81c517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:33 +0000
Subject: [PATCH 59/94] fix: elasticsearch passwords may contain colons

---
 DataManager/agent/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/agent/api.py b/DataManager/agent/api.py
index c0e3118..41859f4 100644
--- a/DataManager/agent/api.py
+++ b/DataManager/agent/api.py
@@ -280,7 +280,7 @@ class ElasticSearchHttp(object):
         self.__url = url
         if self.__url[-1] != "/":
             self.__url += "/"
-        self.__auth = tuple(auth.split(":")) if auth != "" else None
+        self.__auth = tuple(auth.split(":", 1)) if auth != "" else None
 
     def __enter__(self):
         return self
-- 
2.43.0


From 54dc9e06de7fb6edc3f04b82ce63e8fd9351de7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:25 +0000
Subject: [PATCH 60/94] fix: a FIFO cache evicted a file on hits and on
 requests it did not store

---
 SmartCache/ai/models/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SmartCache/ai/models/evaluator.py b/SmartCache/ai/models/evaluator.py
index a22f89c..dd3fc64 100644
--- a/SmartCache/ai/models/evaluator.py
+++ b/SmartCache/ai/models/evaluator.py
@@ -80,7 +80,7 @@ class FIFOCache(SimpleCache):
         self._max_size = max_size
 
     def update(self, file_, insert: bool = True):
-        if len(self._cache) == self._max_size:
+        if insert and len(self._cache) == self._max_size and not self.check(file_):
             self._cache.pop(0)
         return super(FIFOCache, self).update(file_, insert)
 
-- 
2.43.0


From a0994c2af05d9a7361bae1f8f32efa6f53b2fed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:26 +0000
Subject: [PATCH 61/94] fix: the LRU cache of the evaluator evicted the most
 recently used file

---
 SmartCache/ai/models/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SmartCache/ai/models/evaluator.py b/SmartCache/ai/models/evaluator.py
index dd3fc64..3d610eb 100644
--- a/SmartCache/ai/models/evaluator.py
+++ b/SmartCache/ai/models/evaluator.py
@@ -107,7 +107,7 @@ class LRUCache(SimpleCache):
         elif len(self._cache) == self._max_size:
             self._miss += 1
             if insert:
-                idx = np.argmin(self._counters)
+                idx = np.argmax(self._counters)
                 self._cache.pop(idx)
                 self._cache.insert(idx, file_)
                 self._counters[idx] = 0
-- 
2.43.0


From ec5f0639aedd2844acb1c49628f65228f009b8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:26 +0000
Subject: [PATCH 62/94] fix: an LRU cache of the evaluator continued without
 its counters

---
 SmartCache/ai/models/evaluator.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/SmartCache/ai/models/evaluator.py b/SmartCache/ai/models/evaluator.py
index 3d610eb..259de49 100644
--- a/SmartCache/ai/models/evaluator.py
+++ b/SmartCache/ai/models/evaluator.py
@@ -87,14 +87,14 @@ class FIFOCache(SimpleCache):
 
 class LRUCache(SimpleCache):
 
-    def __init__(self, *args, max_size: int = 1000, **kwargs):
-        super(LRUCache, self).__init__(*args, **kwargs)
+    def __init__(self, init_state: dict = {}, max_size: int = 1000):
+        super(LRUCache, self).__init__(init_state)
         self._max_size = max_size
         self._counters = np.zeros(self._max_size)
 
-        if 'init_state' in kwargs:
-            self._max_size = kwargs['init_state']['max_size']
-            self._counters = np.array(kwargs['init_state']['counters'])
+        if init_state:
+            self._max_size = init_state['max_size']
+            self._counters = np.array(init_state['counters'])
 
     def update(self, file_, insert: bool = True):
         self._counters += 1
-- 
2.43.0


From 9c2be2f6ced933043525fc4d702d636304a0e408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 63/94] fix: the converter, inspect and analyzer commands
 import a function that was missing

---
 Probe/probe/converter/inspect.py | 3 +--
 Probe/probe/utils.py             | 4 ++++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/Probe/probe/converter/inspect.py b/Probe/probe/converter/inspect.py
index cfa21fe..9abe74b 100644
--- a/Probe/probe/converter/inspect.py
+++ b/Probe/probe/converter/inspect.py
@@ -2,8 +2,7 @@ import argparse
 import pickle
 from os import path
 
-from ..utils import STATUS_ARROW, STATUS_WARNING
-from .utils import str2bool
+from ..utils import STATUS_ARROW, STATUS_WARNING, str2bool
 
 
 def main():
diff --git a/Probe/probe/utils.py b/Probe/probe/utils.py
index 29866ae..249545a 100644
--- a/Probe/probe/utils.py
+++ b/Probe/probe/utils.py
@@ -17,6 +17,10 @@ def STATUS_OK(string):
     return f"{Style.BRIGHT + Fore.GREEN}{string}{Style.RESET_ALL}"
 
 
+def str2bool(string: str) -> bool:
+    return string.lower() in ("yes", "true", "t", "1")
+
+
 def sort_by_date(df: "pd.DataFrame", column_name: str = "reqDay") -> "pd.DataFrame":
     """Sort the dataframe by date.
 
-- 
2.43.0


From 267f908877a743a5acdda99f9405021485e15dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 64/94] fix: the number of an empty category value can be asked
 for

---
 Probe/probe/converter/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Probe/probe/converter/utils.py b/Probe/probe/converter/utils.py
index 32ca23c..161afce 100644
--- a/Probe/probe/converter/utils.py
+++ b/Probe/probe/converter/utils.py
@@ -119,7 +119,7 @@ class CategoryContainer:
                     self.__sequences[category] += 1
 
     def get(self, category, value=None):
-        if value:
+        if value is not None:
             return self._data[category][value]
         else:
             return self._data[category]
-- 
2.43.0


From 2b26b58ac577c9374814571457a9b794d05eca5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 65/94] fix: values of categories with dots, like file names,
 can be queried

---
 Probe/probe/converter/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Probe/probe/converter/utils.py b/Probe/probe/converter/utils.py
index 161afce..ad52ca3 100644
--- a/Probe/probe/converter/utils.py
+++ b/Probe/probe/converter/utils.py
@@ -147,7 +147,7 @@ class CategoryContainer:
                 colorful_json = make_colored_json(json_output)
                 return colorful_json
             elif subQuery == "valueOf":
-                category, key = category.split(".")
+                category, key = category.split(".", 1)
                 json_output = json.dumps(
                     {category: {key: self._data[category][key]}},
                     indent=2,
-- 
2.43.0


From 3e3b673b4c8ae5f901d7d8d9fe310bbc87d1feb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 66/94] fix: records put into the avro order got the names of
 other records

---
 Probe/probe/converter/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Probe/probe/converter/utils.py b/Probe/probe/converter/utils.py
index ad52ca3..4777c82 100644
--- a/Probe/probe/converter/utils.py
+++ b/Probe/probe/converter/utils.py
@@ -63,7 +63,7 @@ def sort_from_avro(df: 'pd.DataFrame', cur_filename: str, order_folder: str) ->
     ord_df = ord_df.set_index("Filename")
     # Reindex
     new_index = df.reindex_like(ord_df, method=None).dropna()
-    df.set_index(new_index.index, inplace=True)
+    df = df.loc[new_index.index]
     df.reset_index(inplace=True)
     ord_df.reset_index(inplace=True)
     # Remove duplicate counters
-- 
2.43.0


From 0c1a2b227ebd8964f79562a7abd0385b9e6b33c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 67/94] fix: csv_data gave an empty generator instead of the
 loaded data

---
 Probe/probe/loaders.py | 58 +++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/Probe/probe/loaders.py b/Probe/probe/loaders.py
index 705278e..714da5f 100644
--- a/Probe/probe/loaders.py
+++ b/Probe/probe/loaders.py
@@ -97,6 +97,27 @@ def gen_csv_data(
         yield input_path, _load_csv_file(input_path, region_filter, file_type_filter)
 
 
+def _gen_folder_data(
+    input_path: str,
+    region_filter: str = None,
+    file_type_filter: str = None,
+    month_filter: int = -1,
+):
+    """Open one after the other the csv files of a folder
+
+    :yield: the DataFrame of each file
+    :rtype: generator
+    """
+    files = [file_ for file_ in os.listdir(input_path) if file_.find("csv") != -1]
+    for filename in tqdm(sorted(files), desc=f"{STATUS_ARROW}Load folder {input_path}"):
+        if month_filter != -1:
+            if _get_month(filename) != month_filter:
+                continue
+        yield _load_csv_file(
+            path.join(input_path, filename), region_filter, file_type_filter
+        )
+
+
 def csv_data(
     input_path: str,
     region_filter: str = None,
@@ -110,31 +131,20 @@ def csv_data(
     :return: The whole dataset
     :rtype: pandas.DataFrame
     """
-    assert concat != generate, "You cannot concat and generate data..."
+    assert not (concat and generate), "You cannot concat and generate data..."
     if path.isdir(input_path):
-        data_frames = []
-        files = [file_ for file_ in os.listdir(input_path) if file_.find("csv") != -1]
-        for filename in tqdm(
-            sorted(files), desc=f"{STATUS_ARROW}Load folder {input_path}"
-        ):
-            if month_filter != -1:
-                if _get_month(filename) != month_filter:
-                    continue
-            cur_dataframe = _load_csv_file(
-                path.join(input_path, filename), region_filter, file_type_filter
-            )
-            if generate:
-                yield cur_dataframe
-            else:
-                data_frames.append(cur_dataframe)
-        else:
-            if data_frames:
-                if concat:
-                    print(f"{STATUS_ARROW}Concat dataframes...")
-                    return pd.concat(data_frames)
-                return data_frames
-            else:
-                pd.DataFrame()
+        data = _gen_folder_data(
+            input_path, region_filter, file_type_filter, month_filter
+        )
+        if generate:
+            return data
+        data_frames = list(data)
+        if not concat:
+            return data_frames
+        if data_frames:
+            print(f"{STATUS_ARROW}Concat dataframes...")
+            return pd.concat(data_frames)
+        return pd.DataFrame()
     else:
         print(f"{STATUS_ARROW}Load file {input_path}")
         return _load_csv_file(input_path, region_filter, file_type_filter)
-- 
2.43.0


From ade57593bbb8d075dca6197c93b83cd7f091af0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:36 +0000
Subject: [PATCH 68/94] fix: kept files counted as deleted and cells counted as
 the deleted size

---
 Probe/probe/results/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Probe/probe/results/utils.py b/Probe/probe/results/utils.py
index 7bab61f..bcdc008 100644
--- a/Probe/probe/results/utils.py
+++ b/Probe/probe/results/utils.py
@@ -81,14 +81,17 @@ class LogDeleteEvaluator(object):
     def histActionDeltaT(self):
         return px.histogram(self.actions, x="delta t")
 
+    def _deleted(self):
+        return self.actions[self.actions["action or event"] == "DELETE"]
+
     def _get_num_deleted_files(self):
-        return len(set(self.actions.filename))
+        return len(set(self._deleted().filename))
 
     def _get_total_size_deleted_files(self):
-        return self.actions.size.sum()
+        return self._deleted()["size"].sum()
 
     def _get_num_deleted_miss(self):
-        files = set(self.after.filename) & set(self.actions.filename)
+        files = set(self.after.filename) & set(self._deleted().filename)
         tot = 0
         if len(files) > 0:
             counts = self.after.filename[
-- 
2.43.0


From 8641e25ddbafef268aed96e457d685a3c47e81b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:36 +0000
Subject: [PATCH 69/94] fix: a delete event right after another one was not
 evaluated

---
 Probe/probe/results/utils.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/Probe/probe/results/utils.py b/Probe/probe/results/utils.py
index bcdc008..dc4204b 100644
--- a/Probe/probe/results/utils.py
+++ b/Probe/probe/results/utils.py
@@ -129,14 +129,15 @@ def parse_sim_log(log_df: "pd.DataFrame", target: str = "AFTERDELETE"):
         ):
             event = row[2]
 
-            if state == "AFTERDELETE":
-                if event in ["ONFREE", "ONDAYEND", "ONK", "FORCEDCALL", "FREE"]:
-                    if curLog is not None:
-                        curLog.prepare(["Index"] + list(log_df.columns))
-                        yield curLog
-                    curLog = LogDeleteEvaluator(row)
-                    state = "DELETING"
-                elif curLog is not None:
+            if event in ["ONFREE", "ONDAYEND", "ONK", "FORCEDCALL", "FREE"]:
+                if curLog is not None:
+                    curLog.prepare(["Index"] + list(log_df.columns))
+                    yield curLog
+                curLog = LogDeleteEvaluator(row)
+                state = "DELETING"
+
+            elif state == "AFTERDELETE":
+                if curLog is not None:
                     curLog.trace(row)
 
             elif state == "DELETING":
-- 
2.43.0


From de0f5ccd393abb1e424c554988fa7b2ff0286abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:36 +0000
Subject: [PATCH 70/94] fix: a log without delete events could not be parsed

---
 Probe/probe/results/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Probe/probe/results/utils.py b/Probe/probe/results/utils.py
index dc4204b..693489b 100644
--- a/Probe/probe/results/utils.py
+++ b/Probe/probe/results/utils.py
@@ -147,8 +147,9 @@ def parse_sim_log(log_df: "pd.DataFrame", target: str = "AFTERDELETE"):
                     state = "AFTERDELETE"
                     curLog.trace(row)
         else:
-            curLog.prepare(["Index"] + list(log_df.columns))
-            yield curLog
+            if curLog is not None:
+                curLog.prepare(["Index"] + list(log_df.columns))
+                yield curLog
 
     elif target == "MISSFREQ":
         deleted_files = {}
-- 
2.43.0


From 7724e0190c11935df6418fb5ca15803a0a613440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:36 +0000
Subject: [PATCH 71/94] fix: parse_simulation_report never gave the dictionary
 the dashboard needs

---
 Probe/probe/results/data.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/Probe/probe/results/data.py b/Probe/probe/results/data.py
index 6dc2069..229cf3a 100644
--- a/Probe/probe/results/data.py
+++ b/Probe/probe/results/data.py
@@ -292,24 +292,24 @@ def measure_hit_over_miss(df: "pd.DataFrame") -> "pd.Series":
     return df["read on hit data"] / df["read on miss data"]
 
 
+def _gen_del_evaluators(files2plot: list, prefix: str, target: str):
+    for file_, _, sim_log in tqdm(files2plot, desc="Parse log", position=1):
+        name = file_.replace(prefix, "").replace(f"/{SIM_RESULT_FILENAME}", "")
+        for del_evaluator in parse_sim_log(sim_log, target):
+            yield name, del_evaluator
+
+
 def parse_simulation_report(
     files2plot: list, prefix: str, generator: bool = False, target: str = "AFTERDELETE"
 ) -> dict:
     del_evaluators = {}
 
+    if generator:
+        return _gen_del_evaluators(files2plot, prefix, target)
+
     for file_, _, sim_log in tqdm(files2plot, desc="Parse log", position=1):
         name = file_.replace(prefix, "").replace(f"/{SIM_RESULT_FILENAME}", "")
-
-        curEvents = []
-
-        for del_evaluator in parse_sim_log(sim_log, target):
-            if generator:
-                yield name, del_evaluator
-            else:
-                curEvents.append(del_evaluator)
-
-        if not generator:
-            del_evaluators[name] = curEvents
+        del_evaluators[name] = list(parse_sim_log(sim_log, target))
 
     return del_evaluators
 
-- 
2.43.0


From f527446d6aa4f0fcd8540ae5e9686de39350dfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:36 +0000
Subject: [PATCH 72/94] fix: simulations without a log stopped the plots of the
 others

---
 Probe/probe/results/data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Probe/probe/results/data.py b/Probe/probe/results/data.py
index 229cf3a..ebdef1c 100644
--- a/Probe/probe/results/data.py
+++ b/Probe/probe/results/data.py
@@ -294,6 +294,8 @@ def measure_hit_over_miss(df: "pd.DataFrame") -> "pd.Series":
 
 def _gen_del_evaluators(files2plot: list, prefix: str, target: str):
     for file_, _, sim_log in tqdm(files2plot, desc="Parse log", position=1):
+        if sim_log is None:
+            continue
         name = file_.replace(prefix, "").replace(f"/{SIM_RESULT_FILENAME}", "")
         for del_evaluator in parse_sim_log(sim_log, target):
             yield name, del_evaluator
@@ -308,6 +310,8 @@ def parse_simulation_report(
         return _gen_del_evaluators(files2plot, prefix, target)
 
     for file_, _, sim_log in tqdm(files2plot, desc="Parse log", position=1):
+        if sim_log is None:
+            continue
         name = file_.replace(prefix, "").replace(f"/{SIM_RESULT_FILENAME}", "")
         del_evaluators[name] = list(parse_sim_log(sim_log, target))
 
-- 
2.43.0


From f9b189327d897eac8798a15cf911c73b3921a8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:36 +0000
Subject: [PATCH 73/94] fix: the table showed ten results whatever number was
 asked for

---
 Probe/probe/results/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Probe/probe/results/data.py b/Probe/probe/results/data.py
index ebdef1c..dfbf375 100644
--- a/Probe/probe/results/data.py
+++ b/Probe/probe/results/data.py
@@ -425,7 +425,7 @@ def make_table(
 
     df = df.round(6)
     if top_n != 0:
-        df = df.iloc[:10]
+        df = df.iloc[:top_n]
 
     source_files = df.source.to_list()
     del df["source"]
-- 
2.43.0


From 0c8141bc5f77c8f7b52ef7e13516ea60623095f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:36 +0000
Subject: [PATCH 74/94] fix: the dashboard showed the figures of another
 selection of filters

---
 Probe/probe/results/dashboard.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/Probe/probe/results/dashboard.py b/Probe/probe/results/dashboard.py
index 1bdb3dc..65bbb32 100644
--- a/Probe/probe/results/dashboard.py
+++ b/Probe/probe/results/dashboard.py
@@ -435,13 +435,13 @@ def create(results: "Results", server_ip: str = "localhost"):
         sort_by_roh_first: bool = False,
     ) -> str:
         return str(
-            hash(
-                " ".join(
-                    files
-                    + filters_all
-                    + filters_any
-                    + [str(num_of_results), str(extended), str(sort_by_roh_first)]
-                )
+            (
+                files,
+                filters_all,
+                filters_any,
+                num_of_results,
+                extended,
+                sort_by_roh_first,
             )
         )
 
-- 
2.43.0


From b3934abab22f91f3247481b1a0d6fca750cf143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:36 +0000
Subject: [PATCH 75/94] fix: no comparison was found while a switch of the
 table was on

---
 Probe/probe/results/dashboard.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Probe/probe/results/dashboard.py b/Probe/probe/results/dashboard.py
index 65bbb32..fe18c63 100644
--- a/Probe/probe/results/dashboard.py
+++ b/Probe/probe/results/dashboard.py
@@ -793,6 +793,8 @@ def create(results: "Results", server_ip: str = "localhost"):
                 _CACHE["tables"][cur_hash] = table
                 return ("", "", "", table, "", "")
         elif at == "tab-compare":
+            # the comparison does not depend on the layout of the table
+            cur_hash = selection2hash(files, filters_all, filters_any, num_of_results)
             if cur_hash in _CACHE["compare"]:
                 _, figs, tables = _CACHE["compare"][cur_hash]
                 return ("", "", "", "", figs, tables)
-- 
2.43.0


From 63202b12c3076d93b6027a22b52c0554a1f5cab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:36 +0000
Subject: [PATCH 76/94] fix: the downloads of the table were cut or of another
 table

---
 Probe/probe/results/dashboard.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/Probe/probe/results/dashboard.py b/Probe/probe/results/dashboard.py
index fe18c63..3d154b0 100644
--- a/Probe/probe/results/dashboard.py
+++ b/Probe/probe/results/dashboard.py
@@ -426,6 +426,17 @@ def create(results: "Results", server_ip: str = "localhost"):
         style={"padding": "1em"},
     )
 
+    def write_downloads(table: "pd.DataFrame"):
+        for file_, write in [
+            (_CSV_TEMP_FILE, table.to_csv),
+            (_TEX_TEMP_FILE, table.to_latex),
+            (_HTML_TEMP_FILE, table.to_html),
+        ]:
+            file_.seek(0)
+            file_.truncate()
+            write(file_)
+            file_.flush()
+
     def selection2hash(
         files: list,
         filters_all: list,
@@ -739,7 +750,9 @@ def create(results: "Results", server_ip: str = "localhost"):
 
         elif at == "tab-table":
             if cur_hash in _CACHE["tables"]:
-                return ("", "", "", _CACHE["tables"][cur_hash], "", "")
+                table, source_table = _CACHE["tables"][cur_hash]
+                write_downloads(source_table)
+                return ("", "", "", table, "", "")
             else:
                 files2plot = get_files2plot(
                     results,
@@ -777,20 +790,14 @@ def create(results: "Results", server_ip: str = "localhost"):
                         sort_by_roh_first=sort_by_roh_first,
                     )
 
-                _CSV_TEMP_FILE.seek(0)
-                table.to_csv(_CSV_TEMP_FILE)
-
-                _TEX_TEMP_FILE.seek(0)
-                table.to_latex(_TEX_TEMP_FILE)
-
-                _HTML_TEMP_FILE.seek(0)
-                table.to_html(_HTML_TEMP_FILE)
+                write_downloads(table)
+                source_table = table
 
                 table = dbc.Table.from_dataframe(
                     table, striped=True, bordered=True, hover=True
                 )
 
-                _CACHE["tables"][cur_hash] = table
+                _CACHE["tables"][cur_hash] = (table, source_table)
                 return ("", "", "", table, "", "")
         elif at == "tab-compare":
             # the comparison does not depend on the layout of the table
-- 
2.43.0


From 53bcd61f74d3dd9cb87b9bfda52da60058fce8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:20 +0000
Subject: [PATCH 77/94] fix: results in a folder called aiRL could not be
 aggregated

---
 Probe/probe/results/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Probe/probe/results/data.py b/Probe/probe/results/data.py
index dfbf375..865caad 100644
--- a/Probe/probe/results/data.py
+++ b/Probe/probe/results/data.py
@@ -75,7 +75,7 @@ class Element(object):
             elif component.find("_") != -1 and component.split("_")[0] in _ALGORITHMS:
                 yield component.split("_")[0]
             elif component.find("aiRL") != -1:
-                cur_type = component.split("aiRL_")[1].split("_", 1)[0]
+                cur_type = component.partition("aiRL_")[2].split("_", 1)[0]
                 if cur_type == "SCDL":
                     yield "SCDL"
                 elif cur_type.find("SCDL2") != -1 and cur_type.index("SCDL2") == 0:
-- 
2.43.0


From badc397e975adc7bfab6b4bdb1e1f5aeba478ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:46 +0000
Subject: [PATCH 78/94] fix: a day without requests stopped the upper limits,
 and an average had the name of another line

---
 Probe/probe/plotter/stats.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Probe/probe/plotter/stats.py b/Probe/probe/plotter/stats.py
index 4714d83..069c148 100644
--- a/Probe/probe/plotter/stats.py
+++ b/Probe/probe/plotter/stats.py
@@ -67,6 +67,10 @@ def plot_global_upper_limits(df: 'pd.DataFrame',
         print(f"{STATUS_ARROW}[{num:03d}] Filter success jobs")
         cur_df = cur_df[cur_df.JobSuccess.astype(bool)]
 
+        if len(cur_df.index) == 0:
+            print(f"{STATUS_ARROW}[{num:03d}] Skip, there are no requests")
+            continue
+
         print(f"{STATUS_ARROW}[{num:03d}] Calculate limits")
 
         sum_sizes = cur_df.Size.sum()
@@ -129,7 +133,7 @@ def plot_global_upper_limits(df: 'pd.DataFrame',
             x=x,
             y=[avg_read_on_hit for _ in range(len(max_read_on_hit_list))],
             mode='lines',
-            name="Read on hit",
+            name="Avg. Read on hit",
         ),
     )
 
-- 
2.43.0


From 6fc863704cabb01985584ee8ec4094f2072187b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:46 +0000
Subject: [PATCH 79/94] fix: the daily statistics restarted a day too early the
 first time

---
 Probe/probe/plotter/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Probe/probe/plotter/stats.py b/Probe/probe/plotter/stats.py
index 069c148..28414de 100644
--- a/Probe/probe/plotter/stats.py
+++ b/Probe/probe/plotter/stats.py
@@ -434,9 +434,10 @@ def plot_daily_stats(df: 'pd.DataFrame',
                        total=df.shape[0],
                        desc=f"{STATUS_ARROW}Parse stats"):
         if last_day != df_row.reqDay:
+            num_days = len(days)
             days.append(num_req)
             last_day = df_row.reqDay
-            if reset_stat_days > 0 and len(days) % reset_stat_days == 0:
+            if reset_stat_days > 0 and num_days > 0 and num_days % reset_stat_days == 0:
                 resets.append(num_req)
                 stats.append(_files)
                 _files = {}
-- 
2.43.0


From 3776951c1a602fc7baf05d09e4baa1f749f24591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:46 +0000
Subject: [PATCH 80/94] fix: the global statistics lost the first month, could
 not group the sizes and named nothing

---
 Probe/probe/plotter/stats.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/Probe/probe/plotter/stats.py b/Probe/probe/plotter/stats.py
index 28414de..c71715d 100644
--- a/Probe/probe/plotter/stats.py
+++ b/Probe/probe/plotter/stats.py
@@ -176,6 +176,7 @@ def plot_global_stats(df: 'pd.DataFrame',
     if concatenated:
         df = df[(df.DataType == "data") | (df.DataType == "mc")]
     else:
+        df = list(df)
         for idx in tqdm(range(len(df))):
             cur_df = df[idx]
             df[idx] = cur_df[(cur_df.DataType == "data")
@@ -188,6 +189,7 @@ def plot_global_stats(df: 'pd.DataFrame',
         for idx in tqdm(range(len(df))):
             cur_df = df[idx]
             df[idx] = cur_df[cur_df.JobSuccess.astype(bool)]
+        df = [cur_df for cur_df in df if len(cur_df.index) > 0]
 
     print(f"{STATUS_ARROW}Add size in GigaBytes")
     if concatenated:
@@ -199,8 +201,7 @@ def plot_global_stats(df: 'pd.DataFrame',
 
     print(f"{STATUS_ARROW}Add month groups")
     if concatenated:
-        df['month'] = df.groupby(pd.Grouper(key='day', freq='M')).ngroup()
-        df = df[df.month > 0]
+        df['month'] = df.day.apply(lambda elm: elm.month).astype(int)
 
     if concatenated:
         print(f"{STATUS_ARROW}Group by day")
@@ -266,14 +267,14 @@ def plot_global_stats(df: 'pd.DataFrame',
             index=day_indexs,
         )
 
-    numFiles.rename("Files")
-    numReq.rename("Requests")
-    numJobs.rename("Jobs")
-    numTasks.rename("Tasks")
-    numUsers.rename("Users")
-    numSites.rename("Sites")
-    numReqXFileAvg.rename("Avg. num. req. x file")
-    numReqXFileAvgG1.rename("Avg. num. req. x file (> 1)")
+    numFiles = numFiles.rename("Files")
+    numReq = numReq.rename("Requests")
+    numJobs = numJobs.rename("Jobs")
+    numTasks = numTasks.rename("Tasks")
+    numUsers = numUsers.rename("Users")
+    numSites = numSites.rename("Sites")
+    numReqXFileAvg = numReqXFileAvg.rename("Avg. num. req. x file")
+    numReqXFileAvgG1 = numReqXFileAvgG1.rename("Avg. num. req. x file (> 1)")
 
     figGeneral, axesGeneral = plt.subplots(
         nrows=2, ncols=2, sharex=True, figsize=(24, 16)
@@ -313,7 +314,7 @@ def plot_global_stats(df: 'pd.DataFrame',
         nrows=1, ncols=1, figsize=(16, 8))
     if concatenated:
         print(f"{STATUS_ARROW}Plot file sizes")
-        sizes = df[['size (GB)', 'DataType', 'day']]
+        sizes = df[['size (GB)', 'DataType', 'day', 'month']]
     else:
         print(f"{STATUS_ARROW}Plot file sizes")
         sizes = [
@@ -339,16 +340,17 @@ def plot_global_stats(df: 'pd.DataFrame',
         nrows=1, ncols=2, figsize=(16, 8))
     if concatenated:
         print(f"{STATUS_ARROW}Plot data types")
-        cur_ax = df.DataType.value_counts().plot(
+        data_types = df.DataType.value_counts()
+        cur_ax = data_types.plot(
             ax=axesFileTypes[0], kind="pie", figsize=(6, 6),
             labels=None, autopct='%.2f', fontsize=6
         )
         cur_ax.legend(loc='upper right',
-                      labels=df.DataType.index, fontsize=4.2)
+                      labels=data_types.index, fontsize=4.2)
         print(f"{STATUS_ARROW}Plot file types")
         fileTypes = df.FileType.value_counts()
         cur_types = fileTypes[(fileTypes / fileTypes.sum()) > 0.02]
-        cur_types.plot(
+        cur_ax = cur_types.plot(
             ax=axesFileTypes[1], kind="pie", figsize=(6, 6),
             labels=None, autopct='%.2f', fontsize=6
         )
-- 
2.43.0


From e4ca5389e7f573ca61d2a2db3f507d45a46580bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:30 +0000
Subject: [PATCH 81/94] fix: plain csv data had no day, its analyses could not
 start

---
 Probe/probe/loaders.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Probe/probe/loaders.py b/Probe/probe/loaders.py
index 714da5f..dff3f94 100644
--- a/Probe/probe/loaders.py
+++ b/Probe/probe/loaders.py
@@ -38,6 +38,7 @@ def _load_csv_file(
             )
     elif tail == ".csv":
         df = pd.read_csv(input_path, index_col=False)
+        df["day"] = pd.to_datetime(df.reqDay, unit="s")
     else:
         raise Exception(
             f"Input {input_path} with file type '{tail}' is not supported..."
-- 
2.43.0


From f1f9b6c0f985340ad3116d2ba3104c195ee51a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:14 +0000
Subject: [PATCH 82/94] fix: a file bigger than the LRU cache emptied it and
 stopped the simulation

---
 scripts/DataAnalysis/weight_function.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/DataAnalysis/weight_function.py b/scripts/DataAnalysis/weight_function.py
index b38b43b..2541fc0 100644
--- a/scripts/DataAnalysis/weight_function.py
+++ b/scripts/DataAnalysis/weight_function.py
@@ -515,6 +515,8 @@ class LRUCache(object):
         if hit:
             file_ = self._queue.pop(self._queue.index(filename))
             self._queue.append(file_)
+        elif size > self._max_size:
+            return False
         elif self.size + size > self._max_size:
             while self.size + size > self._max_size:
                 file_ = self._queue.pop(0)
-- 
2.43.0


From 9e095511f4eea5cf349ecac475df4bd14c175f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:14 +0000
Subject: [PATCH 83/94] fix: the weighted cache forgot which groups had weights
 to update

---
 scripts/DataAnalysis/weight_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/DataAnalysis/weight_function.py b/scripts/DataAnalysis/weight_function.py
index 2541fc0..82b3fb9 100644
--- a/scripts/DataAnalysis/weight_function.py
+++ b/scripts/DataAnalysis/weight_function.py
@@ -303,7 +303,7 @@ class WeightedCache(object):
         self._group_files[group] |= set((f"{filename}->{size}", ))
         self._group_file_frequencies[group][filename] += 1.
 
-        self._group_dirty = set((group,))
+        self._group_dirty.add(group)
 
         if not hit:
             file_weight = self.cost_function(
-- 
2.43.0


From beb898b7ad07ea15c6037ebb4378916ecd42f07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:14 +0000
Subject: [PATCH 84/94] fix: the weighted cache failed on the files it kept
 when the weights were cleared

---
 scripts/DataAnalysis/weight_function.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/DataAnalysis/weight_function.py b/scripts/DataAnalysis/weight_function.py
index 82b3fb9..4a30a96 100644
--- a/scripts/DataAnalysis/weight_function.py
+++ b/scripts/DataAnalysis/weight_function.py
@@ -322,7 +322,8 @@ class WeightedCache(object):
                 # Update weights
                 if len(self._group_dirty) > 0:
                     for cur_filename, file_group in self._cache_groups.items():
-                        if file_group in self._group_dirty:
+                        if file_group in self._group_dirty and \
+                                cur_filename in self._group_file_frequencies[file_group]:
                             self._cache_weights[cur_filename] = self.cost_function(
                                 size=self._cache[cur_filename],
                                 frequency=self._group_file_frequencies[file_group][cur_filename],
-- 
2.43.0


From dcab1f1304d1694c8ed334fc267586d36d1e701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:15 +0000
Subject: [PATCH 85/94] fix: the weighted caches had no record of the data read
 on hit, their simulation stopped

---
 scripts/DataAnalysis/weight_function.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/scripts/DataAnalysis/weight_function.py b/scripts/DataAnalysis/weight_function.py
index 4a30a96..487e9d7 100644
--- a/scripts/DataAnalysis/weight_function.py
+++ b/scripts/DataAnalysis/weight_function.py
@@ -73,6 +73,7 @@ class WeightedCache(object):
         self.size_history: List[float] = []
         self.hit_rate_history: List[float] = []
         self.write_history: List[float] = []
+        self.read_on_hit_history: List[float] = []
         self.cost_function = cost_function
         self.__cache_options = cache_options
 
@@ -135,11 +136,13 @@ class WeightedCache(object):
         self.size_history = [self.size_history[-1]]
         self.hit_rate_history = [self.hit_rate_history[-1]]
         self.write_history = [self.write_history[-1]]
+        self.read_on_hit_history = [self.read_on_hit_history[-1]]
 
     def reset_history(self):
         self.size_history = []
         self.hit_rate_history = []
         self.write_history = []
+        self.read_on_hit_history = []
         self._hit = 0
         self._miss = 0
 
@@ -206,6 +209,7 @@ class WeightedCache(object):
             'size_history': self.size_history,
             'hit_rate_history': self.hit_rate_history,
             'write_history': self.write_history,
+            'read_on_hit_history': self.read_on_hit_history,
             'cost_function': self.cost_function,
             'cache_options': self.__cache_options,
         }
@@ -230,12 +234,13 @@ class WeightedCache(object):
         self.size_history = state['size_history']
         self.hit_rate_history = state['hit_rate_history']
         self.write_history = state['write_history']
+        self.read_on_hit_history = state['read_on_hit_history']
         self.cost_function = state['cost_function']
         self.__cache_options = state['cache_options']
 
     @property
     def history(self) -> Tuple[List[float]]:
-        return (self.size_history, self.hit_rate_history, self.write_history)
+        return (self.size_history, self.hit_rate_history, self.write_history, self.read_on_hit_history)
 
     @property
     def hit_rate(self) -> float:
@@ -249,6 +254,10 @@ class WeightedCache(object):
     def written_data(self):
         return self.write_history[-1]
 
+    @property
+    def read_on_hit(self):
+        return self.read_on_hit_history[-1]
+
     def update_write_history(self, size: float, added: bool):
         try:
             last = self.write_history[-1]
@@ -259,6 +268,16 @@ class WeightedCache(object):
         else:
             self.write_history.append(last + size)
 
+    def update_read_history(self, size: float, hit: bool):
+        try:
+            last = self.read_on_hit_history[-1]
+        except IndexError:
+            last = 0.0
+        if not hit:
+            self.read_on_hit_history.append(last)
+        else:
+            self.read_on_hit_history.append(last + size)
+
     def check(self, filename: str) -> bool:
         return filename in self._cache
 
@@ -281,6 +300,7 @@ class WeightedCache(object):
         self.size_history.append(self.size)
         self.hit_rate_history.append(self.hit_rate)
         self.update_write_history(size, added)
+        self.update_read_history(size, hit)
 
         return hit
 
-- 
2.43.0


From 43393ba94d291ab9712fb9d2536a4ae982e7d56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:15 +0000
Subject: [PATCH 86/94] fix: the last caches of the weight function simulation
 were not simulated

---
 scripts/DataAnalysis/weight_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/DataAnalysis/weight_function.py b/scripts/DataAnalysis/weight_function.py
index 487e9d7..a642c58 100644
--- a/scripts/DataAnalysis/weight_function.py
+++ b/scripts/DataAnalysis/weight_function.py
@@ -1218,9 +1218,9 @@ def main():
                     cache_list.append(function)
                     cache_remote_list.append(True)
                 else:
-                    cache_remote_list.append(False)
                     for size in args.cache_sizes:
                         for clear_cache in clear_cache_list:
+                            cache_remote_list.append(False)
                             cache_list.append(
                                 LRUCache(
                                     size,
-- 
2.43.0


From 5395745ad34d00e3d1b0bf5da99e5dbbd9564bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:48 +0000
Subject: [PATCH 87/94] fix: the plots could not be deleted, and came back at
 the next start

---
 scripts/DataAnalysis/plot_server.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/scripts/DataAnalysis/plot_server.py b/scripts/DataAnalysis/plot_server.py
index a27f53a..d51e3c1 100644
--- a/scripts/DataAnalysis/plot_server.py
+++ b/scripts/DataAnalysis/plot_server.py
@@ -645,18 +645,18 @@ def cache_info_plot(window: int):
 
 
 @app.route('/cache/plot', methods=['DELETE'])
-def delete_plots(window: int):
+def delete_plots():
     global TABLES, WINDOW_INFO, TABLE_COLORS
-    TABLES = {
-        'hit_rate': {},
-        'size': {},
-        'written_data': {},
-        'read_on_hit': {},
-    }
+    TABLES = {table_name: {} for table_name in TABLES}
 
     WINDOW_INFO = {}
 
     TABLE_COLORS = {}
+
+    # Forget also the saved data
+    for table_name, table in TABLES.items():
+        save_table(table_name, table)
+    save_table("cache_info", WINDOW_INFO)
     return f'Deleted all data'
 
 
-- 
2.43.0


From 8bc289ea7c6335746e07f9489b3ba9efe557bf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:48 +0000
Subject: [PATCH 88/94] fix: a window without points stopped the updates of the
 next ones

---
 scripts/DataAnalysis/plot_server.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scripts/DataAnalysis/plot_server.py b/scripts/DataAnalysis/plot_server.py
index d51e3c1..c42435f 100644
--- a/scripts/DataAnalysis/plot_server.py
+++ b/scripts/DataAnalysis/plot_server.py
@@ -699,9 +699,8 @@ def insert_line_in_table(table_name: str, cache_name: str,
         cur_table[cache_name] = []
     cur_line = cur_table[cache_name]
 
-    try:
-        cur_line[window]
-    except IndexError:
+    # Some windows could have no points
+    while len(cur_line) <= window:
         cur_line.append([])
 
     try:
-- 
2.43.0


From 96d6ec4b0c5a8f48378250af355bca03f98a8343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:48 +0000
Subject: [PATCH 89/94] fix: the comparisons with the LRU cache were not drawn,
 or with the values of another cache

---
 scripts/DataAnalysis/plot_server.py | 77 ++++++++++++++++-------------
 1 file changed, 42 insertions(+), 35 deletions(-)

diff --git a/scripts/DataAnalysis/plot_server.py b/scripts/DataAnalysis/plot_server.py
index c42435f..ced51a8 100644
--- a/scripts/DataAnalysis/plot_server.py
+++ b/scripts/DataAnalysis/plot_server.py
@@ -82,6 +82,24 @@ def get_num_similarities(name_a: str, name_b: str) -> str:
     )
 
 
+def get_lru_name(name: str, names: list) -> str:
+    """Returns the LRU cache of the same size with the closest options."""
+    size = get_size_from_name(name)
+    lru_names = [
+        cur_name for cur_name in sorted(names)
+        if cur_name.lower().find('lru') == 0
+        and get_size_from_name(cur_name) == size
+    ]
+    if not lru_names:
+        return None
+    return max(
+        lru_names,
+        key=lambda cur_name: (
+            get_num_similarities(name, cur_name), -len(cur_name.split("_"))
+        )
+    )
+
+
 def plot_info_window(window: int, filename: str, **kwargs):
     # Empty plot with log scale:
     # - https://github.com/bokeh/bokeh/issues/6671
@@ -384,21 +402,16 @@ def plot_line(table_name: str, filename: str, **kwargs):
                 continue
 
             if compare:
-                if cache_name.lower().find('lru') != 0:
-                    size = get_size_from_name(cache_name)
-                    for cur_name in TABLES[cur_table_name]:
-                        cur_size = get_size_from_name(cur_name)
-                        if get_num_similarities(cache_name, cur_name) >= 2 and\
-                                cur_size == size and\
-                                cur_name.lower().find('lru') == 0:
-                            lru_values = [
-                                value
-                                for bucket in TABLES[cur_table_name][cur_name]
-                                for value in bucket
-                            ]
-                            break
-                else:
+                if cache_name.lower().find('lru') == 0:
+                    continue
+                lru_name = get_lru_name(cache_name, TABLES[cur_table_name])
+                if lru_name is None:
                     continue
+                lru_values = [
+                    value
+                    for bucket in TABLES[cur_table_name][lru_name]
+                    for value in bucket
+                ]
 
             if not v_lines:
                 v_lines = [len(elm) for elm in values]
@@ -419,9 +432,9 @@ def plot_line(table_name: str, filename: str, **kwargs):
 
             if compare:
                 points = [
-                    (point - lru_values[idx]) / lru_values[idx]
-                    if lru_values[idx] != 0. else 0.
-                    for idx, point in enumerate(points)
+                    (point - lru_value) / lru_value
+                    if lru_value != 0. else 0.
+                    for point, lru_value in zip(points, lru_values)
                 ]
 
             if cache_name not in TABLE_COLORS:
@@ -448,6 +461,8 @@ def plot_line(table_name: str, filename: str, **kwargs):
                         'ratio': [],
                         'diff': []
                     }
+                data[cache_name][cur_table_name] = [
+                    value for bucket in values for value in bucket]
                 if filters and check_filters(cache_name, filters):
                     continue
 
@@ -465,8 +480,6 @@ def plot_line(table_name: str, filename: str, **kwargs):
                         ]
                     else:
                         v_lines = []
-                data[cache_name][cur_table_name] = [
-                    value for bucket in values for value in bucket]
                 if cache_name not in TABLE_COLORS:
                     update_colors(cache_name)
 
@@ -505,23 +518,17 @@ def plot_line(table_name: str, filename: str, **kwargs):
                     line_width=2.
                 )
             elif table_name == 'diff_compare':
-                if cache_name.lower().find('lru') > 0:
-                    size = get_size_from_name(cache_name)
-                    for cur_name in data:
-                        cur_size = get_size_from_name(cur_name)
-                        if cur_size == size and cur_name.lower().find('lru') == 0:
-                            lru_values = data[cur_name]
-                            break
-
+                lru_name = get_lru_name(cache_name, data)
+                if cache_name.lower().find('lru') != 0 and lru_name is not None:
+                    points = [
+                        value - lru_value
+                        for value, lru_value in zip(
+                            values['diff'], data[lru_name]['diff']
+                        )
+                    ]
                     plot_figure.line(
-                        range(len(values['diff'])),
-                        [
-                            value -
-                            lru_values['diff'][idx]
-                            for idx, value in enumerate(
-                                values['diff']
-                            )
-                        ],
+                        range(len(points)),
+                        points,
                         legend=cache_name,
                         color=TABLE_COLORS[cache_name],
                         line_width=2.
-- 
2.43.0


From 4230a572f0013fdc33345f81eb793c64307905fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:10 +0000
Subject: [PATCH 90/94] fix: the biggest files were not in the info plots,
 which failed without hits or misses

---
 scripts/DataAnalysis/plot_server.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scripts/DataAnalysis/plot_server.py b/scripts/DataAnalysis/plot_server.py
index ced51a8..f74846a 100644
--- a/scripts/DataAnalysis/plot_server.py
+++ b/scripts/DataAnalysis/plot_server.py
@@ -50,7 +50,7 @@ def fill_hit_miss_bins(n_bins: int, edges: list, values: list) -> tuple:
     tot_miss = sum(n_miss for _, _, n_miss in values)
 
     for value, n_hit, n_miss in values:
-        for idx in range(n_bins - 1):
+        for idx in range(n_bins):
             lower = edges[idx]
             higher = edges[idx+1]
             if value >= lower and value <= higher:
@@ -58,8 +58,10 @@ def fill_hit_miss_bins(n_bins: int, edges: list, values: list) -> tuple:
                 hist_miss_bin[idx] += n_miss
                 break
 
-    hist_hit_bin = [value / tot_hits for value in hist_hit_bin]
-    hist_miss_bin = [value / tot_miss for value in hist_miss_bin]
+    if tot_hits != 0:
+        hist_hit_bin = [value / tot_hits for value in hist_hit_bin]
+    if tot_miss != 0:
+        hist_miss_bin = [value / tot_miss for value in hist_miss_bin]
 
     return hist_hit_bin, hist_miss_bin
 
-- 
2.43.0


From 036257cdd981a5c89d4e63429475b845bfe76c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:39 +0000
Subject: [PATCH 91/94] fix: the file sizes of more than 1000 datasets could
 not be searched

---
 scripts/DataAnalysis/statistics.py | 67 ++++++++++++++++--------------
 1 file changed, 35 insertions(+), 32 deletions(-)

diff --git a/scripts/DataAnalysis/statistics.py b/scripts/DataAnalysis/statistics.py
index 7e5a9c4..8c959eb 100644
--- a/scripts/DataAnalysis/statistics.py
+++ b/scripts/DataAnalysis/statistics.py
@@ -168,6 +168,35 @@ class Statistics(object):
         self.__flush_buffer()
         return self._data
 
+    @staticmethod
+    def __query_sets(cursor, query: str, sets: list, step: int):
+        """Execute a query for the given sets.
+
+        Args:
+            cursor (Cursor): the cursor of the database
+            query (str): the query with the place of the condition
+            sets (list): the sets to search
+            step (int): stride of the extraction from SQLite
+
+        Returns:
+            generator: the lists of the records found
+
+        Note:
+            SQLite accepts at most 1000 alternatives in a condition
+        """
+        for start in range(0, len(sets), 500):
+            cur_sets = sets[start:start + 500]
+            op = cursor.execute(
+                query.format(
+                    " OR ".join(["f_logical_file_name LIKE ?"] * len(cur_sets))
+                ),
+                tuple(f'{cur_set}%' for cur_set in cur_sets)
+            )
+            result = op.fetchmany(step)
+            while result:
+                yield result
+                result = op.fetchmany(step)
+
     def __get_file_sizes(self, step: int = 100):
         """Update a local cache with sizes of all set files.
 
@@ -222,27 +251,14 @@ class Statistics(object):
                         # ).fetchone()[0]
                         # pbar.total = total
 
-                        op = cur_cursor.execute(
-                            query.format(
-                                " OR ".join(
-                                    ["f_logical_file_name LIKE ?" for _ in range(
-                                        len(sets))]
-                                )
-                            ) if len(sets) > 1 else query.format(
-                                "f_logical_file_name LIKE ?"
-                            ),
-                            tuple(f'{cur_set}%' for cur_set in sets)if len(
-                                sets) > 1 else (f'{sets[0]}%', )
-                        )
-
                         pbar.desc = "Update cache"
-                        result = op.fetchmany(step)
-                        while result:
+                        for result in self.__query_sets(
+                            cur_cursor, query, sets, step
+                        ):
                             for record in result:
                                 filename, size = record
                                 self.__tmp_cache[filename] = size
                                 pbar.update(1)
-                            result = op.fetchmany(step)
                         pbar.close()
 
                 self.__tmp_cache_set_added |= set_to_add
@@ -291,27 +307,14 @@ class Statistics(object):
                         # ).fetchone()[0]
                         # pbar.total = total
 
-                        op = cur_cursor.execute(
-                            query.format(
-                                " OR ".join(
-                                    ["f_logical_file_name LIKE ?" for _ in range(
-                                        len(sets))]
-                                )
-                            ) if len(sets) > 1 else query.format(
-                                "f_logical_file_name LIKE ?"
-                            ),
-                            tuple(f'{cur_set}%' for cur_set in sets)if len(
-                                sets) > 1 else (f'{sets[0]}%', )
-                        )
-
                         pbar.desc = f"Update {store_type} REDIS cache of {len(sets)} sets"
-                        result = op.fetchmany(step)
-                        while result:
+                        for result in self.__query_sets(
+                            cur_cursor, query, sets, step
+                        ):
                             self.__redis.mset(dict([
                                 (key, value) for key, value in result
                             ]))
                             pbar.update(step)
-                            result = op.fetchmany(step)
 
                         for cur_set in sets:
                             self.__redis.set(cur_set, "ADDED")
-- 
2.43.0


From 4a21d526cd89ccdde923c42669b84eca1d306dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:40 +0000
Subject: [PATCH 92/94] fix: without files requested once the statistics of
 more requests were of other files

---
 scripts/DataAnalysis/statistics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/DataAnalysis/statistics.py b/scripts/DataAnalysis/statistics.py
index 8c959eb..49fdd2d 100644
--- a/scripts/DataAnalysis/statistics.py
+++ b/scripts/DataAnalysis/statistics.py
@@ -1076,10 +1076,10 @@ def make_dataframe_stats(data: list, window_index: int = 0,
     pbar.update(1)
 
     # Mean num. request x file and
-    # Mean num. request x file with num requests > min
+    # Mean num. request x file with num requests > 1
     num_req_x_file = df['filename'].value_counts()
     num_req_x_file_gmin = num_req_x_file[
-        num_req_x_file > num_req_x_file.min()
+        num_req_x_file > 1
     ]
     mean_num_req_x_file = num_req_x_file.mean()
     mean_num_req_x_file_gmin = num_req_x_file_gmin.mean()
@@ -1095,10 +1095,10 @@ def make_dataframe_stats(data: list, window_index: int = 0,
     size_by_filename = df[['filename', 'size']].dropna().drop_duplicates(
         subset='filename')
     file_1req_list = num_req_x_file[
-        num_req_x_file <= num_req_x_file.min()
+        num_req_x_file == 1
     ].keys().to_list()
     file_g1req_list = num_req_x_file[
-        num_req_x_file > num_req_x_file.min()
+        num_req_x_file > 1
     ].keys().to_list()
     size_1req_files = size_by_filename[size_by_filename['filename'].isin(
         file_1req_list)]['size'].sum() / (1024. ** 3)
-- 
2.43.0


From e04cfcb6ffb36b7b332c488abc6e93ea2875063b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:47 +0000
Subject: [PATCH 93/94] fix: files of other types than data and mc stopped the
 extraction with Redis

---
 scripts/DataAnalysis/statistics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/DataAnalysis/statistics.py b/scripts/DataAnalysis/statistics.py
index 49fdd2d..d87e4e1 100644
--- a/scripts/DataAnalysis/statistics.py
+++ b/scripts/DataAnalysis/statistics.py
@@ -349,7 +349,9 @@ class Statistics(object):
                     set_cache = self.__redis.mget(set_to_add)
                     while not all(
                         [
-                            set_status.decode("ascii") == "ADDED"
+                            # only sets of data and mc are searched
+                            set_status is None
+                            or set_status.decode("ascii") == "ADDED"
                             for set_status in set_cache
                         ]
                     ):
-- 
2.43.0


From 00174eb365e47401cd8c3cee94f64d57fedef57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:14 +0000
Subject: [PATCH 94/94] fix: close float values of a converter map shared a
 number

---
 DataManager/collector/dataset/reader.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/DataManager/collector/dataset/reader.py b/DataManager/collector/dataset/reader.py
index 2367598..19ee5e0 100644
--- a/DataManager/collector/dataset/reader.py
+++ b/DataManager/collector/dataset/reader.py
@@ -138,10 +138,7 @@ class SimulatorDatasetReader(object):
 
     @staticmethod
     def __get_str_value(value) -> str:
-        if isinstance(value, float):
-            return f"{value:0.2f}"
-        else:
-            return str(value)
+        return str(value)
 
     def __get_category_value(self, category_obj, value) -> int:
         if not category_obj['buckets']:
-- 
2.43.0

