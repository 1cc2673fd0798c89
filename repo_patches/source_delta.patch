From fd0d2a66a10edb2231cbe313ca95bcbb30535a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:21 +0000
Subject: [PATCH 01/45] fix: report a failing cache lookup for math resources
 instead of ignoring it

---
 src/wikipedia/wikipedia.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 5737d70..352c5f7 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -318,6 +318,9 @@ func (w *DefaultWikipediaService) getMathResource(mathString string) (string, er
 	// If file exists -> ignore
 	filename := util.Hash(mathString)
 	outputFilepath, fileIsCached, err := cache.GetFile(cache.MathCacheDirName, filename)
+	if err != nil {
+		return "", errors.Wrapf(err, "Unable to check whether math resource file '%s' is already cached or not", outputFilepath)
+	}
 	if fileIsCached {
 		mathSvgFilenameBytes, err := util.CurrentFilesystem.ReadFile(outputFilepath)
 		mathSvgFilename := string(mathSvgFilenameBytes)
-- 
2.43.0


From afcbf399d0a9f448202365323ac123fb90d0b2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 02/45] fix: replace SVG files atomically when making their
 size absolute

---
 src/image/svg.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/image/svg.go b/src/image/svg.go
index 0ce51e6..dbbbf8c 100644
--- a/src/image/svg.go
+++ b/src/image/svg.go
@@ -5,6 +5,7 @@ import (
 	"encoding/xml"
 	"fmt"
 	"os"
+	"path/filepath"
 	"regexp"
 	"strings"
 	"wiki2book/util"
@@ -67,7 +68,25 @@ func MakeSvgSizeAbsolute(filename string) error {
 		return err
 	}
 
-	err = os.WriteFile(filename, []byte(updatedSvgContent), 0644)
+	// Write to a temporary file first. This prevents broken files on disk in case the application exits during writing.
+	tempFile, err := os.CreateTemp(filepath.Dir(filename), filepath.Base(filename))
+	if err != nil {
+		return errors.Wrap(err, "Error creating temporary file for SVG file "+filename)
+	}
+	defer os.Remove(tempFile.Name())
+	defer tempFile.Close()
+
+	_, err = tempFile.WriteString(updatedSvgContent)
+	if err != nil {
+		return errors.Wrap(err, "Error writing SVG file "+filename)
+	}
+
+	err = tempFile.Close()
+	if err != nil {
+		return errors.Wrap(err, "Error closing temporary file for SVG file "+filename)
+	}
+
+	err = os.Rename(tempFile.Name(), filename)
 	if err != nil {
 		return errors.Wrap(err, "Error writing SVG file "+filename)
 	}
-- 
2.43.0


From b546121645d18b2b06610b41c28ac66aae1529a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 03/45] fix: report the error when a path cannot be made
 relative to a base directory

---
 src/util/files.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/files.go b/src/util/files.go
index d676673..58a1f7f 100644
--- a/src/util/files.go
+++ b/src/util/files.go
@@ -52,7 +52,7 @@ func ToRelativePathWithBasedir(basedir string, path string) (string, error) {
 		err = errors.Wrapf(err, "Unable to make file path '%s' relative", path)
 	}
 
-	return path, nil
+	return path, err
 }
 
 func ToAbsolutePaths(paths ...string) ([]string, error) {
-- 
2.43.0


From 733a30d303fa95ee9ea5cd9aae1ab64e3bec7113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 04/45] fix: report an error when the content of the combined
 statistics cannot be created

---
 src/generator/stats.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index 4668261..6876aa3 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -324,6 +324,9 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 	} else {
 		return errors.Errorf("Invalid output type '%s' for stats", config.Current.OutputType)
 	}
+	if err != nil {
+		return err
+	}
 
 	// Just to make it easier to simply open the read the file in CLI because usually files have a newline at the end.
 	outputConent = append(outputConent, byte('\n'))
-- 
2.43.0


From bbbeb77069d8c309e4251eadea4bfea2dc5faa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 05/45] fix: send the complete body again when a request is
 retried after a 429 response

---
 src/http/http.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/http/http.go b/src/http/http.go
index 9db145b..61b83d1 100644
--- a/src/http/http.go
+++ b/src/http/http.go
@@ -152,6 +152,14 @@ func (d *DefaultHttpService) doRequest(url string, request *http.Request) (*http
 			}
 			sigolo.Debugf("Received response status code %d and try request again in %d seconds", response.StatusCode, waitTime)
 			sleepFunc(waitTime)
+
+			// The body has been consumed by the request above, so it has to be reset before sending the request again.
+			if request.GetBody != nil {
+				request.Body, err = request.GetBody()
+				if err != nil {
+					return nil, errors.Wrap(err, fmt.Sprintf("Unable to reset body of %s request to url %s", request.Method, url))
+				}
+			}
 			continue
 		} else if response.StatusCode != http.StatusOK {
 			return nil, errors.Errorf("%s request to url %s failed with status code %d", request.Method, url, response.StatusCode)
-- 
2.43.0


From 9420a1de8534cd2b2db9932216be70e0946c3385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 06/45] fix: close the body of responses which are not passed
 on to the caller

---
 src/http/http.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/http/http.go b/src/http/http.go
index 61b83d1..f977ba3 100644
--- a/src/http/http.go
+++ b/src/http/http.go
@@ -145,6 +145,7 @@ func (d *DefaultHttpService) doRequest(url string, request *http.Request) (*http
 		if response.StatusCode == http.StatusTooManyRequests {
 			// 429 (too many requests): wait a bit and retry
 			var waitTime int
+			closeBody(response)
 			waitTime, err = strconv.Atoi(response.Header.Get(HeaderRetryAfter))
 			if err != nil {
 				waitTime = 2
@@ -162,11 +163,13 @@ func (d *DefaultHttpService) doRequest(url string, request *http.Request) (*http
 			}
 			continue
 		} else if response.StatusCode != http.StatusOK {
+			closeBody(response)
 			return nil, errors.Errorf("%s request to url %s failed with status code %d", request.Method, url, response.StatusCode)
 		}
 
 		responseErrorHeader := response.Header.Get(HeaderMediawikiApiError)
 		if responseErrorHeader != "" {
+			closeBody(response)
 			return nil, errors.Errorf("%s request to url %s failed with error header '%s' value '%s'", request.Method, url, HeaderMediawikiApiError, responseErrorHeader)
 		}
 		break
@@ -174,3 +177,10 @@ func (d *DefaultHttpService) doRequest(url string, request *http.Request) (*http
 
 	return response, nil
 }
+
+// closeBody closes the body of a response that is not passed on to the caller.
+func closeBody(response *http.Response) {
+	if response.Body != nil {
+		response.Body.Close()
+	}
+}
-- 
2.43.0


From 255f2e22d4ccf3d471415b8869f9219f2b222149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 07/45] fix: close the output file after checking whether it is
 a directory

---
 src/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.go b/src/main.go
index 1b2010f..8e7a3f8 100644
--- a/src/main.go
+++ b/src/main.go
@@ -516,6 +516,7 @@ func ensurePathsAndClearTempDir(outputFile string) string {
 		file, err = os.Open(outputFile)
 		sigolo.FatalCheck(err)
 	}
+	defer file.Close()
 
 	// Assign default output file name if given path is a directory
 	fileInfo, err := file.Stat()
-- 
2.43.0


From e8a368b47f98fb99897bd019950832eebc544946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 08/45] fix: take over wikipedia-image-article-hosts when only
 their order differs from the default

---
 src/config/config.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/config/config.go b/src/config/config.go
index fe9172c..f363c75 100644
--- a/src/config/config.go
+++ b/src/config/config.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"path/filepath"
 	"runtime"
+	"slices"
 	"strings"
 	"wiki2book/util"
 
@@ -605,7 +606,8 @@ func MergeIntoCurrentConfig(c *Configuration) {
 		sigolo.Tracef("Override WikipediaMathRestApi with %s", c.WikipediaMathRestApi)
 		Current.WikipediaMathRestApi = c.WikipediaMathRestApi
 	}
-	if !util.EqualsInAnyOrder(c.WikipediaImageArticleHosts, defaultConfig.WikipediaImageArticleHosts) {
+	if !slices.Equal(c.WikipediaImageArticleHosts, defaultConfig.WikipediaImageArticleHosts) {
+		// The hosts are tried in the given order, so a different order of the default hosts is a different value.
 		sigolo.Tracef("Override WikipediaImageArticleHosts with %v", c.WikipediaImageArticleHosts)
 		Current.WikipediaImageArticleHosts = c.WikipediaImageArticleHosts
 	}
-- 
2.43.0


From 341f10b221003da9ead6a2995954aec354e8a39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:39 +0000
Subject: [PATCH 09/45] fix: keep absolute font files of a configuration file
 as they are

---
 src/config/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/config.go b/src/config/config.go
index f363c75..0c55050 100644
--- a/src/config/config.go
+++ b/src/config/config.go
@@ -664,7 +664,7 @@ func (c *Configuration) makePathsAbsolute(file string) {
 	sigolo.FatalCheck(err)
 
 	for i, f := range c.FontFiles {
-		absoluteFile := filepath.Join(absoluteConfigDir, f)
+		absoluteFile, err := util.ToAbsolutePathWithBasedir(absoluteConfigDir, f)
 		sigolo.FatalCheck(err)
 		c.FontFiles[i] = absoluteFile
 	}
-- 
2.43.0


From a318550dbb19d01a69cc27355f16f8c152e4886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 10/45] fix: resolve a relative path to the pandoc executable
 against the configuration file

---
 src/config/config.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/config/config.go b/src/config/config.go
index 0c55050..1a388c4 100644
--- a/src/config/config.go
+++ b/src/config/config.go
@@ -663,6 +663,12 @@ func (c *Configuration) makePathsAbsolute(file string) {
 	c.PandocDataDir, err = util.ToAbsolutePathWithBasedir(absoluteConfigDir, c.PandocDataDir)
 	sigolo.FatalCheck(err)
 
+	if strings.Contains(c.PandocExecutable, "/") {
+		// Just the name of an executable, e.g. "pandoc", is not a path and stays as it is.
+		c.PandocExecutable, err = util.ToAbsolutePathWithBasedir(absoluteConfigDir, c.PandocExecutable)
+		sigolo.FatalCheck(err)
+	}
+
 	for i, f := range c.FontFiles {
 		absoluteFile, err := util.ToAbsolutePathWithBasedir(absoluteConfigDir, f)
 		sigolo.FatalCheck(err)
-- 
2.43.0


From dc450c6eb863f9768f2a2671be9368a9e6ae1100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:53 +0000
Subject: [PATCH 11/45] fix: resolve paths of CLI arguments before changing
 into the folder of the project

---
 src/config/config.go | 6 ++++++
 src/main.go          | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/config/config.go b/src/config/config.go
index 1a388c4..6431af3 100644
--- a/src/config/config.go
+++ b/src/config/config.go
@@ -691,6 +691,12 @@ func (c *Configuration) MakePathsAbsoluteToWorkingDir() {
 	c.PandocDataDir, err = util.ToAbsolutePath(c.PandocDataDir)
 	sigolo.FatalCheck(err)
 
+	if strings.Contains(c.PandocExecutable, "/") {
+		// Just the name of an executable, e.g. "pandoc", is not a path and stays as it is.
+		c.PandocExecutable, err = util.ToAbsolutePath(c.PandocExecutable)
+		sigolo.FatalCheck(err)
+	}
+
 	for i, f := range c.FontFiles {
 		absoluteFile, err := util.ToAbsolutePath(f)
 		sigolo.FatalCheck(err)
diff --git a/src/main.go b/src/main.go
index 8e7a3f8..f69174a 100644
--- a/src/main.go
+++ b/src/main.go
@@ -185,6 +185,9 @@ func initialize(cliLogging string, cliConfig *config.Configuration, cliConfigFil
 
 	sigolo.Tracef("CLI config:\n%+v", cliConfig)
 
+	// Paths given as CLI arguments are relative to the current working directory, which might change later on.
+	cliConfig.MakePathsAbsoluteToWorkingDir()
+
 	if cliConfigFile != "" {
 		err := config.LoadConfig(cliConfigFile)
 		sigolo.FatalCheck(err)
-- 
2.43.0


From 7a47cc6a33f0fd1731bae7a7298389c77dadc77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 12/45] fix: do not regard lists with different duplicates as
 equal

---
 src/util/collections.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/util/collections.go b/src/util/collections.go
index 520a289..b0e8bc3 100644
--- a/src/util/collections.go
+++ b/src/util/collections.go
@@ -15,20 +15,14 @@ func EqualsInAnyOrder[T comparable](arrayA []T, arrayB []T) bool {
 		return false
 	}
 
-	mapA := make(map[T]T)
+	counts := make(map[T]int)
 	for _, value := range arrayA {
-		mapA[value] = value
+		counts[value]++
 	}
 
-	mapB := make(map[T]T)
 	for _, value := range arrayB {
-		mapB[value] = value
-	}
-
-	for _, value := range arrayA {
-		_, okA := mapA[value]
-		_, okB := mapB[value]
-		if !okA || !okB {
+		counts[value]--
+		if counts[value] < 0 {
 			return false
 		}
 	}
-- 
2.43.0


From 73e758b80b71e889437f928bb5a30914fad5779f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:39 +0000
Subject: [PATCH 13/45] fix: generate statistics for standalone files instead
 of failing with an internal error

---
 src/main.go | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/main.go b/src/main.go
index f69174a..3f2dc62 100644
--- a/src/main.go
+++ b/src/main.go
@@ -291,25 +291,38 @@ func generateStandaloneEbook(inputFile string, outputFile string) {
 	err = wikipediaService.DownloadImages(article.Images)
 	sigolo.FatalCheck(err)
 
-	// TODO Adjust this when additional non-epub output types are supported.
-	htmlFilePath := path.Join(cache.HtmlCacheDirName, article.Title+".html")
-	if shouldRecreateHtml(htmlFilePath, config.Current.ForceRegenerateHtml) {
-		htmlGenerator := &generator.HtmlGenerator{
-			TokenMap:         article.TokenMap,
-			WikipediaService: wikipediaService,
+	sigolo.Infof("Start generating %s file", config.Current.OutputType)
+	switch config.Current.OutputType {
+	case config.OutputTypeEpub2:
+		fallthrough
+	case config.OutputTypeEpub3:
+		htmlFilePath := path.Join(cache.HtmlCacheDirName, article.Title+".html")
+		if shouldRecreateHtml(htmlFilePath, config.Current.ForceRegenerateHtml) {
+			htmlGenerator := &generator.HtmlGenerator{
+				TokenMap:         article.TokenMap,
+				WikipediaService: wikipediaService,
+			}
+			htmlFilePath, err = htmlGenerator.Generate(article)
+			sigolo.FatalCheck(err)
 		}
-		htmlFilePath, err = htmlGenerator.Generate(article)
+
+		metadata := config.Metadata{
+			Title: title,
+		}
+
+		err = generator.GenerateEpub([]string{htmlFilePath}, outputFile, metadata)
+		sigolo.FatalCheck(err)
+	case config.OutputTypeStatsJson:
+		fallthrough
+	case config.OutputTypeStatsTxt:
+		statsGenerator := generator.NewStatsGenerator(article.TokenMap)
+		statsFilePath, err := statsGenerator.Generate(article)
 		sigolo.FatalCheck(err)
-	}
 
-	sigolo.Infof("Start generating %s file", config.Current.OutputType)
-	metadata := config.Metadata{
-		Title: title,
+		err = generator.GenerateCombinedStats([]string{statsFilePath}, outputFile)
+		sigolo.FatalCheck(err)
 	}
 
-	err = generator.GenerateEpub([]string{htmlFilePath}, outputFile, metadata)
-	sigolo.FatalCheck(err)
-
 	err = os.RemoveAll(cache.GetTempPath())
 	if err != nil {
 		sigolo.Warnf("Error cleaning up '%s' directory", cache.GetTempPath())
-- 
2.43.0


From c5a607bd1b4c0f08d46145028e410d0708c657c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 14/45] fix: keep the page of an article that is listed twice
 in a project

---
 src/main.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/main.go b/src/main.go
index 3f2dc62..9059ff8 100644
--- a/src/main.go
+++ b/src/main.go
@@ -358,7 +358,7 @@ func generateBookFromArticles(project *config.Project) {
 	numberOfArticles := len(articles)
 	articleOutputFiles := make([]string, numberOfArticles)
 
-	articleChan := make(chan string, config.Current.WorkerThreads)
+	articleChan := make(chan int, config.Current.WorkerThreads)
 	sigolo.Debugf("Use %d worker threads to process the articles", config.Current.WorkerThreads)
 
 	wikipediaService := wikipedia.NewWikipediaService(
@@ -380,16 +380,10 @@ func generateBookFromArticles(project *config.Project) {
 		sigolo.Debugf("Start worker thread %d", i)
 
 		go func(threadNumber int) {
-			for articleName := range articleChan {
+			for articleNumber := range articleChan {
+				articleName := articles[articleNumber]
 				sigolo.Debugf("Processing article %s on thread %d", articleName, threadNumber)
 
-				articleNumber := 0
-				for ; articleNumber < len(articles); articleNumber++ {
-					if articleName == articles[articleNumber] {
-						break
-					}
-				}
-
 				thisArticleOutputFile := processArticle(articleName, articleNumber+1, numberOfArticles, wikipediaService)
 				articleOutputFiles[articleNumber] = thisArticleOutputFile
 			}
@@ -400,9 +394,9 @@ func generateBookFromArticles(project *config.Project) {
 		}(i)
 	}
 
-	for _, articleName := range articles {
+	for articleNumber, articleName := range articles {
 		sigolo.Debugf("Pass article %s to worker threads", articleName)
-		articleChan <- articleName
+		articleChan <- articleNumber
 	}
 	close(articleChan)
 
-- 
2.43.0


From 81924fd8b1462094bcb80ddb2ca13a566eee839d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:09 +0000
Subject: [PATCH 15/45] fix: use the already existing page of an article
 instead of dropping the article

---
 src/main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main.go b/src/main.go
index 9059ff8..bff69d1 100644
--- a/src/main.go
+++ b/src/main.go
@@ -296,7 +296,7 @@ func generateStandaloneEbook(inputFile string, outputFile string) {
 	case config.OutputTypeEpub2:
 		fallthrough
 	case config.OutputTypeEpub3:
-		htmlFilePath := path.Join(cache.HtmlCacheDirName, article.Title+".html")
+		htmlFilePath := cache.GetFilePathInCache(cache.HtmlCacheDirName, article.Title+".html")
 		if shouldRecreateHtml(htmlFilePath, config.Current.ForceRegenerateHtml) {
 			htmlGenerator := &generator.HtmlGenerator{
 				TokenMap:         article.TokenMap,
@@ -435,10 +435,11 @@ func processArticle(articleName string, currentArticleNumber int, totalNumberOfA
 	sigolo.Infof("Article '%s' (%d/%d): Start processing", articleName, currentArticleNumber, totalNumberOfArticles)
 
 	wikipediaArticleHost := fmt.Sprintf("%s.%s", config.Current.WikipediaInstance, config.Current.WikipediaHost)
-	htmlFilePath := filepath.Join(cache.HtmlCacheDirName, articleName+".html") // TODO use generator to get this file (currently determining the filepath happens twice)
+	htmlFilePath := cache.GetFilePathInCache(cache.HtmlCacheDirName, articleName+".html") // TODO use generator to get this file (currently determining the filepath happens twice)
 	articleOutputFile := ""
 	if !shouldRecreateHtml(htmlFilePath, config.Current.ForceRegenerateHtml) {
 		sigolo.Debugf("Article '%s' (%d/%d): HTML for article does already exist. Skip parsing and HTML generation.", articleName, currentArticleNumber, totalNumberOfArticles)
+		articleOutputFile = htmlFilePath
 	} else {
 		sigolo.Debugf("Article '%s' (%d/%d): Download article", articleName, currentArticleNumber, totalNumberOfArticles)
 		wikiArticleDto, err := wikipediaService.DownloadArticle(wikipediaArticleHost, articleName)
-- 
2.43.0


From 8845ff42473eeec4ba4fbff08318c9d863b44edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:44 +0000
Subject: [PATCH 16/45] fix: keep colons in image names and accept image titles
 without namespace

---
 src/wikipedia/wikipedia.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 352c5f7..405d73c 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -190,13 +190,22 @@ func (w *DefaultWikipediaService) postProcessImage(outputFilepath string, freshl
 	return nil
 }
 
+// withoutNamespace removes the namespace (e.g. "File:") from the given title. The rest of the title might contain further
+// colons. A title without namespace is returned unchanged.
+func withoutNamespace(title string) string {
+	_, name, hasNamespace := strings.Cut(title, ":")
+	if !hasNamespace {
+		return title
+	}
+	return name
+}
+
 // downloadImage downloads the given image (e.g. "File:foo.jpg") to the given folder and returns the filepath as first
 // return value. When the file already exists, then the second value is false, otherwise true (for fresh downloads or
 // in case of errors). Whenever an error is returned, the article cache folder is needed as some files might be
 // redirects and such a redirect counts as article.
 func (w *DefaultWikipediaService) downloadImage(imageArticleHost string, imageNameWithPrefix string) (string, bool, error) {
-	// TODO handle colons in file names
-	imageName := "File:" + strings.Split(imageNameWithPrefix, ":")[1]
+	imageName := "File:" + withoutNamespace(imageNameWithPrefix)
 	sigolo.Debugf("Download article file for image '%s' from '%s'", imageName, imageArticleHost)
 	imageArticle, err := w.DownloadArticle(imageArticleHost, imageName)
 	if err != nil {
@@ -206,11 +215,11 @@ func (w *DefaultWikipediaService) downloadImage(imageArticleHost string, imageNa
 	// Replace spaces with underscore because wikimedia doesn't know spaces in file names:
 
 	originalImageNameWithPrefix := imageArticle.Parse.OriginalTitle
-	originalImageName := strings.Split(originalImageNameWithPrefix, ":")[1]
+	originalImageName := withoutNamespace(originalImageNameWithPrefix)
 	originalImageName = strings.ReplaceAll(originalImageName, " ", "_")
 
 	actualImageNameWithPrefix := imageArticle.Parse.Title
-	actualImageName := strings.Split(actualImageNameWithPrefix, ":")[1]
+	actualImageName := withoutNamespace(actualImageNameWithPrefix)
 	actualImageName = strings.ReplaceAll(actualImageName, " ", "_")
 
 	md5sum := fmt.Sprintf("%x", md5.Sum([]byte(actualImageName)))
-- 
2.43.0


From a080c0bd69e3e64895038b9746f3d53fe6e20364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:50 +0000
Subject: [PATCH 17/45] fix: do not use the file names '.' and '..' unchanged,
 as they refer to folders

---
 src/util/files.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/util/files.go b/src/util/files.go
index 58a1f7f..3f045cc 100644
--- a/src/util/files.go
+++ b/src/util/files.go
@@ -136,8 +136,8 @@ func ToMB(size int64) float64 {
 
 // SanitizeFilename URL encodes characters, that are problematic for file paths. This function assumes, that the
 // parameter is a single filename not containing non-printable characters (e.g. ASCII 0-31) or reserved words like
-// "COM1" on Windows or "." on Linux. Only usually invalid printable characters are encoded, all other characters
-// (even special characters) stay unchanged.
+// "COM1" on Windows. Only usually invalid printable characters and the names "." and ".." are encoded, all other
+// characters (even special characters) stay unchanged.
 func SanitizeFilename(filename string) string {
 	/*
 		Not allowed in Windows filesystems:
@@ -166,6 +166,11 @@ func SanitizeFilename(filename string) string {
 	filename = strings.ReplaceAll(filename, "?", "%3F")
 	filename = strings.ReplaceAll(filename, "*", "%2A")
 
+	// The names "." and ".." are valid titles but would refer to the folder itself or its parent.
+	if filename == "." || filename == ".." {
+		filename = strings.ReplaceAll(filename, ".", "%2E")
+	}
+
 	return filename
 }
 
@@ -207,6 +212,7 @@ func IsSanitized(path string) bool {
 		part = strings.ReplaceAll(part, "%7C", "")
 		part = strings.ReplaceAll(part, "%3F", "")
 		part = strings.ReplaceAll(part, "%2A", "")
+		part = strings.ReplaceAll(part, "%2E", "")
 
 		if strings.Contains(part, "%") ||
 			strings.Contains(part, "<") ||
-- 
2.43.0


From cab21170eaac64588bafe1806451461d26f7a698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 18/45] fix: keep the text of external links with an
 unsupported protocol

---
 src/generator/expand.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/generator/expand.go b/src/generator/expand.go
index a3b0e54..9c7771f 100644
--- a/src/generator/expand.go
+++ b/src/generator/expand.go
@@ -46,6 +46,10 @@ func expandToken(expansionHandler ExpansionHandler, token parser.Token) (string,
 		html = expansionHandler.expandRefUsage(t)
 	case parser.NowikiToken:
 		html = expansionHandler.expandNowiki(t)
+	case parser.StringToken:
+		html, err = expandString(expansionHandler, t.String)
+	default:
+		err = errors.Errorf("Unsupported token type to expand: %T", token)
 	}
 
 	if err != nil {
-- 
2.43.0


From d0893cc16578cc094977a114710f6fa7c9e57d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 19/45] fix: regard sub-lists in the statistics

---
 src/generator/stats.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index 6876aa3..f33b4f7 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -229,7 +229,18 @@ func (g *StatsGenerator) expandListItems(items []parser.ListItemToken) (string,
 }
 
 func (g *StatsGenerator) expandListItem(token parser.ListItemToken) (string, error) {
-	return expand(g, token.Content)
+	expandedContent, err := expand(g, token.Content)
+	if err != nil {
+		return "", err
+	}
+	for _, subList := range token.SubLists {
+		expandedSubList, err := expand(g, subList)
+		if err != nil {
+			return "", err
+		}
+		expandedContent += expandedSubList
+	}
+	return expandedContent, nil
 }
 
 func (g *StatsGenerator) expandRefDefinition(token parser.RefDefinitionToken) (string, error) {
-- 
2.43.0


From e59a09a246f3ae4b22b5665872768fac396f5fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 20/45] fix: generate the same statistics each time by not
 relying on the order of maps

---
 src/generator/stats.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index f33b4f7..7c0cdb8 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -315,7 +315,10 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 	}
 
 	slices.SortFunc(uncoveredArticles, func(a, b string) int {
-		return cmp.Compare(combinedStats.UncoveredInternalLinks[b], combinedStats.UncoveredInternalLinks[a])
+		return cmp.Or(
+			cmp.Compare(combinedStats.UncoveredInternalLinks[b], combinedStats.UncoveredInternalLinks[a]),
+			cmp.Compare(a, b), // Maps have no order, so define one for links with the same number of occurrences.
+		)
 	})
 	for i, uncoveredArticle := range uncoveredArticles {
 		if i >= 10 {
@@ -375,8 +378,13 @@ func generateTxtStatsContent(articles map[string]*articleStats, combinedStats *a
 
 	// Article names
 	result += "Article:\n"
-	for _, article := range articles {
-		result += "  " + article.ArticleName + "\n"
+	var articleNames []string
+	for articleName := range articles {
+		articleNames = append(articleNames, articleName)
+	}
+	slices.Sort(articleNames)
+	for _, articleName := range articleNames {
+		result += "  " + articleName + "\n"
 	}
 	result += "\n"
 
@@ -392,6 +400,9 @@ func generateTxtStatsContent(articles map[string]*articleStats, combinedStats *a
 		sortedUncoveredLinks = append(sortedUncoveredLinks, uncoveredLinkEntry{k, v})
 	}
 	sort.Slice(sortedUncoveredLinks, func(i, j int) bool {
+		if sortedUncoveredLinks[i].occurrences == sortedUncoveredLinks[j].occurrences {
+			return sortedUncoveredLinks[i].articleName < sortedUncoveredLinks[j].articleName
+		}
 		return sortedUncoveredLinks[i].occurrences > sortedUncoveredLinks[j].occurrences
 	})
 
-- 
2.43.0


From e4178044288f921577a01dfefb716d1203df21fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 21/45] fix: return an error instead of ending hard when
 there's no file left in the cache to delete

---
 src/util/files.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/files.go b/src/util/files.go
index 3f045cc..d13a8ac 100644
--- a/src/util/files.go
+++ b/src/util/files.go
@@ -364,6 +364,11 @@ func (o *OsFilesystem) FindLargestFile(path string, exceptDir string) (error, in
 		return err, math.MinInt64, ""
 	}
 
+	if currentLargestFile == nil {
+		// No file was found
+		return nil, 0, ""
+	}
+
 	return nil, currentLargestFile.Size(), currentLargestFilePath
 }
 
-- 
2.43.0


From 15e0c228b357e0a14bd6d1c9c36385cf1690ed3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:51 +0000
Subject: [PATCH 22/45] fix: regard that the older state of the new file might
 have been deleted from the cache

---
 src/cache/cache.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cache/cache.go b/src/cache/cache.go
index 029f44a..6a66460 100644
--- a/src/cache/cache.go
+++ b/src/cache/cache.go
@@ -142,7 +142,8 @@ func deleteFilesFromCacheIfNeeded(cacheFolderName string, newFileName string, ne
 	// just be added to the cache, but instead the old file will be replaced. The cache then grows much less in size or
 	// might even shrink (in case the new file is smaller than the old one).
 	var netCacheSizeChangeInBytes = newFileSizeInBytes
-	existingFileSizeInBytes, err := util.CurrentFilesystem.GetSizeInBytes(GetFilePathInCache(cacheFolderName, newFileName))
+	outputFilepath := GetFilePathInCache(cacheFolderName, newFileName)
+	existingFileSizeInBytes, err := util.CurrentFilesystem.GetSizeInBytes(outputFilepath)
 	if err == nil {
 		netCacheSizeChangeInBytes = newFileSizeInBytes - existingFileSizeInBytes
 	}
@@ -161,6 +162,12 @@ func deleteFilesFromCacheIfNeeded(cacheFolderName string, newFileName string, ne
 		if err != nil {
 			return err
 		}
+
+		// The deleted file might have been the older state of the new file, which then isn't replaced anymore.
+		_, err = util.CurrentFilesystem.GetSizeInBytes(outputFilepath)
+		if err != nil {
+			netCacheSizeChangeInBytes = newFileSizeInBytes
+		}
 	}
 
 	return nil
-- 
2.43.0


From cc66db1f1d6ec1e954227dba26da0ceb47ddf60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 23/45] fix: don't count the temporary file twice when deciding
 whether files must be deleted from the cache

---
 src/cache/cache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cache/cache.go b/src/cache/cache.go
index 6a66460..3ac165b 100644
--- a/src/cache/cache.go
+++ b/src/cache/cache.go
@@ -108,8 +108,9 @@ func CacheToFile(cacheFolderName string, filename string, reader io.Reader) (str
 			return outputFilepath, errors.Wrap(err, fmt.Sprintf("Unable to determine size of file '%s' to cache (tmp file '%s')", sanitizedFilename, tempFilepath))
 		}
 
+		// The temporary file is within the cache folder and therefore already part of the determined size.
 		tempFileSizeInBytes := tempFileStat.Size()
-		err = deleteFilesFromCacheIfNeeded(cacheFolderName, filename, tempFileSizeInBytes, cacheSizeInBytes)
+		err = deleteFilesFromCacheIfNeeded(cacheFolderName, filename, tempFileSizeInBytes, cacheSizeInBytes-tempFileSizeInBytes)
 		if err != nil {
 			return outputFilepath, err
 		}
-- 
2.43.0


From 9f67c06088d9f81cdb6c4c0b650097bce6d2369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:50 +0000
Subject: [PATCH 24/45] fix: keep values with spaces as one argument when
 executing commands

---
 src/image/image.go | 11 ++---------
 src/util/cmd.go    | 10 ++++++++--
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/image/image.go b/src/image/image.go
index 5d75d7f..208fe7e 100644
--- a/src/image/image.go
+++ b/src/image/image.go
@@ -1,7 +1,6 @@
 package image
 
 import (
-	"strings"
 	"wiki2book/config"
 	"wiki2book/util"
 
@@ -24,19 +23,13 @@ func NewImageProcessingService() ImageProcessingService {
 func (s *ImageProcessingServiceImpl) ResizeAndCompressImage(imageFilepath string, commandTemplate string) error {
 	sigolo.Tracef("Process image '%s'", imageFilepath)
 
-	commandString := strings.ReplaceAll(commandTemplate, config.InputPlaceholder, imageFilepath)
-	commandString = strings.ReplaceAll(commandString, config.OutputPlaceholder, imageFilepath)
-
-	err := util.ExecuteCommandWithArgs(commandString, config.Current.CacheDir)
+	err := util.ExecuteCommandWithArgs(commandTemplate, config.Current.CacheDir, config.InputPlaceholder, imageFilepath, config.OutputPlaceholder, imageFilepath)
 	return errors.Wrapf(err, "Converting image '%s' failed", imageFilepath)
 }
 
 func (s *ImageProcessingServiceImpl) ConvertToPng(inputFile string, pngFile string, commandTemplate string) error {
 	sigolo.Tracef("Convert '%s' to PNG '%s'", inputFile, pngFile)
 
-	commandString := strings.ReplaceAll(commandTemplate, config.InputPlaceholder, inputFile)
-	commandString = strings.ReplaceAll(commandString, config.OutputPlaceholder, pngFile)
-
-	err := util.ExecuteCommandWithArgs(commandString, ".")
+	err := util.ExecuteCommandWithArgs(commandTemplate, ".", config.InputPlaceholder, inputFile, config.OutputPlaceholder, pngFile)
 	return errors.Wrapf(err, "Converting image '%s' to PNG failed", inputFile)
 }
diff --git a/src/util/cmd.go b/src/util/cmd.go
index 59c6f63..ad28a07 100644
--- a/src/util/cmd.go
+++ b/src/util/cmd.go
@@ -9,8 +9,14 @@ import (
 	"github.com/pkg/errors"
 )
 
-func ExecuteCommandWithArgs(commandString string, workingDirectory string) error {
-	commandParts := strings.Split(commandString, " ")
+// ExecuteCommandWithArgs executes the command given by the template, which is split at spaces. The replacements (pairs of
+// placeholder and value) are applied to the separate parts, so that spaces in the values don't split arguments.
+func ExecuteCommandWithArgs(commandTemplate string, workingDirectory string, replacements ...string) error {
+	commandParts := strings.Split(commandTemplate, " ")
+	replacer := strings.NewReplacer(replacements...)
+	for i, part := range commandParts {
+		commandParts[i] = replacer.Replace(part)
+	}
 	commandExecutable := commandParts[0]
 	commandArgs := commandParts[1:]
 
-- 
2.43.0


From c89373e7ffd30e60b2c60217646ba788f6893d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:06 +0000
Subject: [PATCH 25/45] fix: don't add cover image and style to the book if
 they are not set

---
 src/generator/epub.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/generator/epub.go b/src/generator/epub.go
index 36fae3a..68001db 100644
--- a/src/generator/epub.go
+++ b/src/generator/epub.go
@@ -85,14 +85,16 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 	epubObj.SetLang(metadata.Language)
 	epubObj.SetTitle(metadata.Title)
 
-	internalCoverImagePath, err := epubObj.AddImage(config.Current.CoverImage, "cover.png")
-	if err != nil {
-		return errors.Wrap(err, fmt.Sprintf("Error adding cover image '%s' to EPUB object", config.Current.CoverImage))
-	}
+	if config.Current.CoverImage != "" {
+		internalCoverImagePath, err := epubObj.AddImage(config.Current.CoverImage, "cover.png")
+		if err != nil {
+			return errors.Wrap(err, fmt.Sprintf("Error adding cover image '%s' to EPUB object", config.Current.CoverImage))
+		}
 
-	err = epubObj.SetCover(internalCoverImagePath, "")
-	if err != nil {
-		return errors.Wrap(err, fmt.Sprintf("Error setting internal image '%s' as cover image on EPUB object", internalCoverImagePath))
+		err = epubObj.SetCover(internalCoverImagePath, "")
+		if err != nil {
+			return errors.Wrap(err, fmt.Sprintf("Error setting internal image '%s' as cover image on EPUB object", internalCoverImagePath))
+		}
 	}
 
 	headingTitleRegex := regexp.MustCompile(`(?s)<h1>(.*)</h1>`)
@@ -116,9 +118,11 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 		epubObj.EmbedImages()
 	}
 
-	_, err = epubObj.AddCSS(config.Current.StyleFile, "style.css")
-	if err != nil {
-		return errors.Wrap(err, fmt.Sprintf("Error adding CSS file %s to EPUB object", config.Current.StyleFile))
+	if config.Current.StyleFile != "" {
+		_, err = epubObj.AddCSS(config.Current.StyleFile, "style.css")
+		if err != nil {
+			return errors.Wrap(err, fmt.Sprintf("Error adding CSS file %s to EPUB object", config.Current.StyleFile))
+		}
 	}
 
 	//for _, image := range images {
-- 
2.43.0


From 61190700c613e637166c476308da9ca2de89efcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:06 +0000
Subject: [PATCH 26/45] fix: use the file name instead of the whole path for
 fonts within the book, which couldn't be written

---
 src/generator/epub.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/epub.go b/src/generator/epub.go
index 68001db..b6cadf6 100644
--- a/src/generator/epub.go
+++ b/src/generator/epub.go
@@ -138,7 +138,7 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 	// TODO Test if this if working. The name in the CSS style and the name inside the EPUB probably need to match.
 	for _, fontFile := range config.Current.FontFiles {
 		sigolo.Debugf("Add font file %s to EPUB object", fontFile)
-		_, err = epubObj.AddFont(fontFile, fontFile)
+		_, err = epubObj.AddFont(fontFile, "")
 		if err != nil {
 			return errors.Wrap(err, fmt.Sprintf("Error adding font file %s to EPUB object", fontFile))
 		}
-- 
2.43.0


From 2181a618e11e225e01199a7654bfe2badc9e5d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:27 +0000
Subject: [PATCH 27/45] fix: link the style from the pages of the book when
 using the internal driver

---
 src/generator/epub.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/generator/epub.go b/src/generator/epub.go
index b6cadf6..88d6c49 100644
--- a/src/generator/epub.go
+++ b/src/generator/epub.go
@@ -97,6 +97,14 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 		}
 	}
 
+	internalStylePath := ""
+	if config.Current.StyleFile != "" {
+		internalStylePath, err = epubObj.AddCSS(config.Current.StyleFile, "style.css")
+		if err != nil {
+			return errors.Wrap(err, fmt.Sprintf("Error adding CSS file %s to EPUB object", config.Current.StyleFile))
+		}
+	}
+
 	headingTitleRegex := regexp.MustCompile(`(?s)<h1>(.*)</h1>`)
 	var fileBytes []byte
 	for _, sourceFile := range sourceFiles {
@@ -111,20 +119,13 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 		sectionTitle := headingTitleRegex.FindStringSubmatch(fileContent)[1]
 
 		// TODO Find a way to add subsections to TOC as well
-		_, err = epubObj.AddSection(fileContent, sectionTitle, "", "")
+		_, err = epubObj.AddSection(fileContent, sectionTitle, "", internalStylePath)
 		if err != nil {
 			return errors.Wrap(err, fmt.Sprintf("Error reading source file %s to add it to the EPUB object", sourceFile))
 		}
 		epubObj.EmbedImages()
 	}
 
-	if config.Current.StyleFile != "" {
-		_, err = epubObj.AddCSS(config.Current.StyleFile, "style.css")
-		if err != nil {
-			return errors.Wrap(err, fmt.Sprintf("Error adding CSS file %s to EPUB object", config.Current.StyleFile))
-		}
-	}
-
 	//for _, image := range images {
 	//	image = strings.Split(image, ":")[1] // Remove whatever prefix (e.g. "File:" or "Datei:") this image has
 	//	imageFilepath := filepath.Join(imageCache, image)
-- 
2.43.0


From 88cf88dadc89b6eca25cb6b112b6a25f2908d77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:19 +0000
Subject: [PATCH 28/45] fix: don't treat dollar signs of the text as
 placeholders when generating pages and statistics, which failed or crashed
 then

---
 src/generator/expand.go | 65 ++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 37 deletions(-)

diff --git a/src/generator/expand.go b/src/generator/expand.go
index 9c7771f..11785b9 100644
--- a/src/generator/expand.go
+++ b/src/generator/expand.go
@@ -75,7 +75,7 @@ func expand(expansionHandler ExpansionHandler, content interface{}) (string, err
 func expandString(g ExpansionHandler, content string) (string, error) {
 	content = g.expandMarker(content)
 
-	matches := tokenRegex.FindAllString(content, -1)
+	matches := tokenRegex.FindAllStringIndex(content, -1)
 
 	if len(matches) == 0 {
 		// no token in content
@@ -83,48 +83,39 @@ func expandString(g ExpansionHandler, content string) (string, error) {
 	}
 
 	// Index where pure text starts (e.g. after a token)
-	textSegmentStartIndex := -1
+	textSegmentStartIndex := 0
 	newContent := ""
 
-	for i := 0; i < len(content); i++ {
-		if i < len(content)-1 && content[i:i+2] == "$$" {
-			// We found a token start -> Expand content before token and the token itself
-
-			// 1. Expand normal text before token (if there is any text before the token)
-			if textSegmentStartIndex != -1 {
-				pureTextSegment := content[textSegmentStartIndex:i]
-				expandedPureTextSegment := g.expandSimpleString(pureTextSegment)
-				newContent += expandedPureTextSegment
-			}
-
-			// 2. Expand token and its content
-			tokenEndIndex := parser.FindCorrespondingCloseToken(content, i+2, "$$", "$$")
-			tokenKey := content[i+2 : tokenEndIndex]
-
-			tokenContent, hasTokenKey := g.getToken("$$" + tokenKey + "$$")
-			if !hasTokenKey {
-				return "", errors.Errorf("Token key %s not found in token map", tokenKey)
-			}
-			sigolo.Tracef("Found token %s -> %#v", tokenKey, tokenContent)
-
-			expandedContent, err := expand(g, tokenContent)
-			if err != nil {
-				return "", err
-			}
-
-			newContent += expandedContent
-
-			// Skip the token with its ending and continue after it. Only "+1" because the loop ads another "+1" so that the whole token ending of length 2 is skipped.
-			i = tokenEndIndex + 1
-			textSegmentStartIndex = -1
-		} else if textSegmentStartIndex == -1 {
-			// When index is unset -> set it and therefore remember the start of a pure text segment
-			textSegmentStartIndex = i
+	for _, match := range matches {
+		// 1. Expand normal text before token (if there is any text before the token)
+		if textSegmentStartIndex < match[0] {
+			pureTextSegment := content[textSegmentStartIndex:match[0]]
+			expandedPureTextSegment := g.expandSimpleString(pureTextSegment)
+			newContent += expandedPureTextSegment
 		}
+
+		// 2. Expand token and its content
+		tokenKey := content[match[0]:match[1]]
+
+		tokenContent, hasTokenKey := g.getToken(tokenKey)
+		if !hasTokenKey {
+			return "", errors.Errorf("Token key %s not found in token map", tokenKey)
+		}
+		sigolo.Tracef("Found token %s -> %#v", tokenKey, tokenContent)
+
+		expandedContent, err := expand(g, tokenContent)
+		if err != nil {
+			return "", err
+		}
+
+		newContent += expandedContent
+
+		// Continue with the text after the token
+		textSegmentStartIndex = match[1]
 	}
 
 	// Expand the part behind the last token (if it exists)
-	if textSegmentStartIndex != -1 {
+	if textSegmentStartIndex < len(content) {
 		pureTextSegment := content[textSegmentStartIndex:]
 		expandedPureTextSegment := g.expandSimpleString(pureTextSegment)
 		newContent += expandedPureTextSegment
-- 
2.43.0


From 81d1145ce8124f5a95d4a4dc40537887593c8e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:36 +0000
Subject: [PATCH 29/45] fix: convert images again when the original was
 downloaded again

---
 src/wikipedia/wikipedia.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 405d73c..cca2d76 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -165,7 +165,7 @@ func (w *DefaultWikipediaService) postProcessImage(outputFilepath string, freshl
 	if commandTemplate != "" {
 		outputPngFilepath := util.GetPngPathForFile(outputFilepath)
 		pngAlreadyExists := util.PathExists(outputPngFilepath)
-		if !pngAlreadyExists {
+		if !pngAlreadyExists || freshlyDownloaded {
 			err := w.imageProcessingService.ConvertToPng(outputFilepath, outputPngFilepath, commandTemplate)
 			if err != nil {
 				return err
-- 
2.43.0


From 415398fd16d92829ab7a7af1ddf8a1bb6b740fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:02 +0000
Subject: [PATCH 30/45] fix: only take complete attributes from table cells

---
 src/parser/pattern.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 9e991e5..2bd3a8e 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -48,8 +48,8 @@ var (
 // Tables
 var (
 	tableStartRegex         = regexp.MustCompile(`^(:*)(\{\|.*)`)
-	tableRowAndColspanRegex = regexp.MustCompile(`(colspan|rowspan)="?(\d+)"?`)
-	tableTextAlignRegex     = regexp.MustCompile(`text-align:.+?;`)
+	tableRowAndColspanRegex = regexp.MustCompile(`(colspan|rowspan)=("\d+"|\d+)`)
+	tableTextAlignRegex     = regexp.MustCompile(`text-align:[^;"\n]+;`)
 )
 
 // References
-- 
2.43.0


From 50f72265efee82e8424f4658cb6ed44772a12919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 31/45] fix: escape quotes in the URL of external links

---
 src/generator/html.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/generator/html.go b/src/generator/html.go
index 32b114f..f4e94b3 100644
--- a/src/generator/html.go
+++ b/src/generator/html.go
@@ -210,7 +210,10 @@ func (g *HtmlGenerator) expandExternalLink(token parser.ExternalLinkToken) (stri
 		return "", err
 	}
 
-	return fmt.Sprintf(HREF_TEMPLATE, token.URL, text), nil
+	// Quotes would end the attribute of the link
+	linkUrl := strings.ReplaceAll(token.URL, `"`, "%22")
+
+	return fmt.Sprintf(HREF_TEMPLATE, linkUrl, text), nil
 }
 
 func (g *HtmlGenerator) expandTable(token parser.TableToken) (string, error) {
-- 
2.43.0


From 39aec84b8f2c76819aa955abe95488193e4b6e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:09 +0000
Subject: [PATCH 32/45] fix: don't crash on internal links without closing
 brackets when cleaning the wikitext

---
 src/parser/cleaner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index a02a8f8..ae6afd5 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -77,6 +77,10 @@ func (t *Tokenizer) removeUnwantedInternalLinks(content string) string {
 
 		if cursor == "[[" {
 			endIndex := FindCorrespondingCloseToken(content, i+2, "[", "]")
+			if endIndex == -1 || endIndex+2 > len(content) {
+				// no closing brackets found -> move on in the normal text
+				continue
+			}
 
 			totalLinkContent := content[i+2 : endIndex]
 			linkSegments := strings.SplitN(totalLinkContent, ":", -1)
-- 
2.43.0


From c36552b0aa4574c9034fb2843423d9a8865a6f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:10 +0000
Subject: [PATCH 33/45] fix: don't crash on images without a name

---
 src/parser/image.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/image.go b/src/parser/image.go
index 25926ec..ce15b41 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -65,6 +65,11 @@ func (t *Tokenizer) escapeImages(content string) string {
 		}
 	}
 
+	if filename == "" {
+		// Without a name there's no image, e.g. in "[[File:|thumb]]".
+		return ""
+	}
+
 	sigolo.Tracef("Found image: %s", filename)
 
 	// Replace spaces with underscore because wikimedia doesn't know spaces in file names:
-- 
2.43.0


From 9e3f36b1433ea5eff6c2d98a23888aed97bffb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:11 +0000
Subject: [PATCH 34/45] fix: don't crash on image maps at the end of the
 wikitext

---
 src/parser/image.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/image.go b/src/parser/image.go
index ce15b41..f32cf89 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -183,6 +183,10 @@ func (t *Tokenizer) parseImageMaps(content string) string {
 			if line == "" {
 				// if empty -> delete this line i, the next line contains the image
 				lines = append(lines[:i], lines[i+1:]...)
+				if i >= len(lines) {
+					// the text ends here, so there's no image
+					break
+				}
 				line = lines[i]
 			}
 
-- 
2.43.0


From 974417f1c7258485493c3b358820fb24fc886285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:12 +0000
Subject: [PATCH 35/45] fix: don't crash on images without closing brackets

---
 src/parser/image.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/image.go b/src/parser/image.go
index f32cf89..4417862 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -209,6 +209,12 @@ func (t *Tokenizer) parseImages(content string) string {
 	for startIndex != nil {
 		// Use the end-index of the match, since it points to the ":" of the "[[File:" match
 		endIndex := FindCorrespondingCloseToken(content, startIndex[1], "[", "]")
+		if endIndex == -1 || endIndex+2 > len(content) {
+			// Image without closing brackets -> Only remove the opening brackets and keep the rest as normal text
+			content = content[0:startIndex[0]] + content[startIndex[0]+2:]
+			startIndex = internalLinkStartRegex.FindStringIndex(content)
+			continue
+		}
 
 		imageContent := content[startIndex[1]:endIndex]
 		imageContent = t.tokenizeContent(t, imageContent)
-- 
2.43.0


From e56eabd664c4d4a92289d9b4c8b76cfee49ea88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:13 +0000
Subject: [PATCH 36/45] fix: don't crash on links without a target, e.g. links
 to sections of the same article

---
 src/parser/link.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/link.go b/src/parser/link.go
index 83c24c1..c8bfccc 100644
--- a/src/parser/link.go
+++ b/src/parser/link.go
@@ -90,7 +90,10 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 				continue
 			}
 
-			if linkTarget[0] == ':' {
+			if linkTarget == "" {
+				// Link to a section of the same article (or nothing at all), so there's no name of an article.
+				linkText = strings.TrimSpace(possibleLinkWikitext)
+			} else if linkTarget[0] == ':' {
 				// A link starting with ":" indicates e.g. a link to a category. Because we have no delimiter here, the
 				// link text is the part behind the last ":".
 				linkSegments := strings.SplitN(linkTarget, ":", -1)
-- 
2.43.0


From 4ac21fc5e800b7e8755455517f399bed332c3908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:15 +0000
Subject: [PATCH 37/45] fix: don't crash on nowiki tags which are not closed

---
 src/parser/nowiki.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/nowiki.go b/src/parser/nowiki.go
index 47914a2..8a9cbed 100644
--- a/src/parser/nowiki.go
+++ b/src/parser/nowiki.go
@@ -23,6 +23,10 @@ func (t *Tokenizer) parseNowiki(content string) string {
 
 		if util.EqualsIgnoreCase(cursor, nowikiStart) {
 			endIndex := FindCorrespondingCloseTokenIgnoreCase(content, i+nowikiStartLen, nowikiStart, nowikiEnd)
+			if endIndex == -1 {
+				// no closing tag found -> move on in the normal text
+				continue
+			}
 
 			token := NowikiToken{
 				Content: content[i+nowikiStartLen : endIndex],
-- 
2.43.0


From 3fabc158265cd25d5ca3dd27c791895e9e21113a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 38/45] fix: keep references which are not closed as text
 instead of crashing

---
 src/parser/reference.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/reference.go b/src/parser/reference.go
index 1dc66db..63a674b 100644
--- a/src/parser/reference.go
+++ b/src/parser/reference.go
@@ -70,6 +70,7 @@ func (t *Tokenizer) parseReferences(content string) string {
 		if startEndIndex == -1 {
 			// XML for <ref not closed -> broken wikitext
 			sigolo.Errorf("XML element for reference start '%s' not closed (i.e. missing '%s'). Text around this location: ...%s...", refDefStart, xmlClosing, util.GetTextAround(content, i, 50))
+			continue
 		}
 
 		if referencePlaceholderEndRegex.MatchString(content[i:startEndIndex+1]) || referencePlaceholderShortRegex.MatchString(content[i:startEndIndex+1]) {
@@ -121,6 +122,7 @@ func (t *Tokenizer) parseReferences(content string) string {
 				if refEndIndex == -1 {
 					// No end token found -> probably unsupported wikitext syntax (like nested refs)
 					sigolo.Errorf("No end-part for reference start '%s' found. Text around this location: ...%s...", refDefStart, util.GetTextAround(content, i, 50))
+					continue
 				}
 				refNumberCounterForCurrentGroup, content = t.parseReferenceDefinition(content, i, startEndIndex, refEndIndex, refNumberCounterForCurrentGroup, nameAttributeValue, nameToRefNumberForCurrentGroup, refNumberToContentForCurrentGroup, cursorWithinReferencePlaceholder, refDefLongEndLen)
 			}
-- 
2.43.0


From c5d4920e4a08ba4bf5bac11c738e855962fbddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:17 +0000
Subject: [PATCH 39/45] fix: don't crash on tables which are not closed

---
 src/parser/table.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/parser/table.go b/src/parser/table.go
index 9595b5b..1d4515f 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -116,7 +116,10 @@ func (t *Tokenizer) tokenizeTable(content string) TableToken {
 		} else if isHeadingStart {
 			rowToken, i = t.tokenizeTableRow(lines, i)
 		} else if isRowStart {
-			if strings.HasPrefix(lines[i+1], "!") {
+			if i+1 >= len(lines) {
+				// there's nothing behind the start of the row
+				break
+			} else if strings.HasPrefix(lines[i+1], "!") {
 				// this table row is a heading
 				rowToken, i = t.tokenizeTableRow(lines, i+1)
 			} else if strings.HasPrefix(lines[i+1], "|") {
@@ -168,11 +171,16 @@ func (t *Tokenizer) tokenizeTableRow(lines []string, i int) (TableRowToken, int)
 
 		// Collect all normal text rows until the next row or column starts.
 		i++
-		for l := strings.TrimSpace(lines[i]); !strings.HasPrefix(l, "|") && !strings.HasPrefix(l, "!"); {
-			line += "\n" + l
-
-			i++
-			l = lines[i]
+		if i < len(lines) {
+			for l := strings.TrimSpace(lines[i]); !strings.HasPrefix(l, "|") && !strings.HasPrefix(l, "!"); {
+				line += "\n" + l
+
+				i++
+				if i >= len(lines) {
+					break
+				}
+				l = lines[i]
+			}
 		}
 		// Now the index is at the start of the next column/row -> reduce by 1 for later parsing.
 		i -= 1
@@ -217,11 +225,14 @@ func (t *Tokenizer) tokenizeTableCaption(lines []string, i int) (TableCaptionTok
 
 	// collect all lines from this caption
 	i++
-	for l := strings.TrimSpace(lines[i]); !strings.HasPrefix(l, "|") && !strings.HasPrefix(l, "!"); {
+	for i < len(lines) {
+		l := strings.TrimSpace(lines[i])
+		if strings.HasPrefix(l, "|") || strings.HasPrefix(l, "!") {
+			break
+		}
 		captionLines += "\n" + l
 
 		i++
-		l = strings.TrimSpace(lines[i])
 	}
 
 	captionLines = strings.TrimPrefix(captionLines, "|+")
-- 
2.43.0


From be4fedf5a12435b594500f1e50907cc6c760c095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:52 +0000
Subject: [PATCH 40/45] fix: return an error instead of crashing on pages
 without a heading when using the internal driver

---
 src/generator/epub.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/generator/epub.go b/src/generator/epub.go
index 88d6c49..de31174 100644
--- a/src/generator/epub.go
+++ b/src/generator/epub.go
@@ -116,7 +116,11 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 
 		fileContent := string(fileBytes)
 
-		sectionTitle := headingTitleRegex.FindStringSubmatch(fileContent)[1]
+		headingTitleMatch := headingTitleRegex.FindStringSubmatch(fileContent)
+		if headingTitleMatch == nil {
+			return errors.Errorf("Source file '%s' contains no heading that can be used as title in the EPUB object", sourceFile)
+		}
+		sectionTitle := headingTitleMatch[1]
 
 		// TODO Find a way to add subsections to TOC as well
 		_, err = epubObj.AddSection(fileContent, sectionTitle, "", internalStylePath)
-- 
2.43.0


From 7e315e797d1f87c34e960bc69dfd0849429c6e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:02 +0000
Subject: [PATCH 41/45] fix: Stop replacing template placeholders when nothing
 could be replaced

Text that only looks like a template placeholder made the loop run forever.
---
 src/parser/template.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/template.go b/src/parser/template.go
index aa5dd2d..40e80f3 100644
--- a/src/parser/template.go
+++ b/src/parser/template.go
@@ -38,6 +38,7 @@ func (t *Tokenizer) evaluateTemplates(content string) (string, error) {
 	for strings.Contains(content, templatePlaceholderPrefix) {
 		sigolo.Tracef("Check content for template placeholders (%d remain)", len(placeholderToContent))
 
+		replacedPlaceholder := false
 		for key, template := range placeholderToContent {
 			placeholder := fmt.Sprintf(templatePlaceholderTemplate, key)
 			containsPlaceholder := strings.Contains(content, placeholder)
@@ -45,9 +46,15 @@ func (t *Tokenizer) evaluateTemplates(content string) (string, error) {
 
 			if containsPlaceholder {
 				content = strings.ReplaceAll(content, placeholder, template)
+				replacedPlaceholder = true
 				sigolo.Tracef("Replaced template placeholder %s in content", key)
 			}
 		}
+
+		if !replacedPlaceholder {
+			// The remaining text only looks like a placeholder, so there's nothing it can be replaced by.
+			break
+		}
 	}
 	sigolo.Debug("Finished replacing template placeholders. Template handling done.")
 
-- 
2.43.0


From 462af084e79db5545fbe3f67573f26868867bbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:45 +0000
Subject: [PATCH 42/45] fix: keep the arguments and the spelling of trailing
 templates when moving them

---
 src/parser/cleaner.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index ae6afd5..9b20651 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -157,8 +157,10 @@ func (t *Tokenizer) handleUnwantedAndTrailingTemplates(content string) string {
 				content = strings.Replace(content, templateText, "", 1)
 
 				// Collect templates that should be moved to the bottom of the article
-				if util.Contains(trailingTemplates, templateName) {
-					foundTrailingTemplates = append(foundTrailingTemplates, templateName)
+				if util.HasAnyPrefix(templateName, trailingTemplates...) {
+					// Keep the template as it is, just without unwanted templates in its arguments.
+					templateArguments := t.handleUnwantedAndTrailingTemplates(templateText[2:])
+					foundTrailingTemplates = append(foundTrailingTemplates, "{{"+templateArguments)
 				}
 
 				// Because the template was removed, we have to start from the original location again in the next
@@ -170,7 +172,7 @@ func (t *Tokenizer) handleUnwantedAndTrailingTemplates(content string) string {
 
 	// Re-add trailing templates to the bottom of the article
 	for _, foundTrailingTemplate := range foundTrailingTemplates {
-		content += "\n{{" + foundTrailingTemplate + "}}"
+		content += "\n" + foundTrailingTemplate
 	}
 
 	return content
-- 
2.43.0


From d3136830070e06dffa61482dadb7753603ace207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:03 +0000
Subject: [PATCH 43/45] fix: find references directly following a removed tag
 within a list of references

---
 src/parser/reference.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/reference.go b/src/parser/reference.go
index 63a674b..3372318 100644
--- a/src/parser/reference.go
+++ b/src/parser/reference.go
@@ -95,6 +95,7 @@ func (t *Tokenizer) parseReferences(content string) string {
 			currentPlaceholderGroup = t.getGroupOrDefault(content[i:startEndIndex])
 			content = content[0:i] + content[startEndIndex+1:] // Remove tag from content
 			cursorWithinReferencePlaceholder = true
+			i-- // The next tag might directly follow the removed one and is now at this index
 		} else {
 			// Tag like "<ref name=..." or "<ref>..." found
 			nameAttributeValue := t.getNameAttribute(content[i+refDefStartLen : startEndIndex])
@@ -128,6 +129,10 @@ func (t *Tokenizer) parseReferences(content string) string {
 			}
 
 			refNumberCounter[groupName] = refNumberCounterForCurrentGroup
+
+			if cursorWithinReferencePlaceholder && (nameAttributeValue != "" || !isReferenceUsage) {
+				i-- // The reference was removed, the next one might directly follow it and is now at this index
+			}
 		}
 	}
 
-- 
2.43.0


From bc78462883138ef5cc631551960d490bd38a934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:42 +0000
Subject: [PATCH 44/45] fix: take only the first heading of a page as its title
 in the EPUB

---
 src/generator/epub.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/epub.go b/src/generator/epub.go
index de31174..4533b5f 100644
--- a/src/generator/epub.go
+++ b/src/generator/epub.go
@@ -105,7 +105,7 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 		}
 	}
 
-	headingTitleRegex := regexp.MustCompile(`(?s)<h1>(.*)</h1>`)
+	headingTitleRegex := regexp.MustCompile(`(?s)<h1>(.*?)</h1>`)
 	var fileBytes []byte
 	for _, sourceFile := range sourceFiles {
 		sigolo.Debugf("Add source file %s to EPUB object", sourceFile)
-- 
2.43.0


From a5ce5ab1b20bad6ec134d2804f3c7c2e33ced05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:08 +0000
Subject: [PATCH 45/45] fix: don't join two lines when removing a comment
 between them

---
 src/parser/cleaner.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index 9b20651..e38df06 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -52,8 +52,18 @@ func (t *Tokenizer) removeComments(content string) string {
 		} else {
 			nonCommentSegment := segments[0]
 
-			// Remove potentially trailing newline:
-			if len(nonCommentSegment) > 0 && nonCommentSegment[len(nonCommentSegment)-1] == '\n' {
+			// Find the text after this comment and the ones directly following it
+			textAfterComment := ""
+			for _, nextItem := range splitContent[i+1:] {
+				textAfterComment = strings.TrimLeft(nextItem, " \t")
+				if !strings.HasPrefix(textAfterComment, "<!--") {
+					break
+				}
+			}
+
+			// Remove potentially trailing newline, but only if there's nothing else in the line of the comment:
+			commentEndsLine := textAfterComment == "" || strings.HasPrefix(textAfterComment, "\n")
+			if commentEndsLine && len(nonCommentSegment) > 0 && nonCommentSegment[len(nonCommentSegment)-1] == '\n' {
 				// If this segments ends with a newline, the comment following it started with a newline. We remove the
 				// newline, because otherwise, there will be additional blank lines between former comments. Example:
 				// "foo\n<!--comment-->\nbar"  would turn into  "foo\n\nbar"  instead of  "foo\nbar"
-- 
2.43.0

