From eec698abb3f43cf7c6a96cc2a834d4121b7fc8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:46 +0000
Subject: [PATCH 1/8] fix: AddReturnType appended responses already in the list

---
 safePushing.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/safePushing.go b/safePushing.go
index 82cd297..62cb7a4 100644
--- a/safePushing.go
+++ b/safePushing.go
@@ -7,12 +7,16 @@ func AddReturnType(prev []ReturnType, n ...ReturnType) []ReturnType {
 		if len(prev) == 0 {
 			prev = append(prev, newReturn)
 		} else {
+			var found bool
 			for _, existingReturn := range prev {
-				if newReturn.Field.Type != existingReturn.Field.Type || newReturn.Field.Package != existingReturn.Field.Package || newReturn.StatusCode != existingReturn.StatusCode || newReturn.ContentType != existingReturn.ContentType {
-					prev = append(prev, newReturn)
+				if newReturn.Field.Type == existingReturn.Field.Type && newReturn.Field.Package == existingReturn.Field.Package && newReturn.StatusCode == existingReturn.StatusCode && newReturn.ContentType == existingReturn.ContentType {
+					found = true
 					break
 				}
 			}
+			if !found {
+				prev = append(prev, newReturn)
+			}
 		}
 	}
 
-- 
2.43.0


From 2dfdc9239795f6c904e9988c6a143e9459a502ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:51 +0000
Subject: [PATCH 2/8] fix: custom type mappings added after a lookup were
 ignored

---
 formatTypes.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/formatTypes.go b/formatTypes.go
index a9a16ab..f2575e4 100644
--- a/formatTypes.go
+++ b/formatTypes.go
@@ -112,6 +112,7 @@ func WithCustomTypeMapping(customTypeMap map[string]TypeFormat) Option {
 		for k, v := range customTypeMap {
 			service.CustomTypeMapping[k] = v
 		}
+		service.fullTypeMapping = nil // merged again on the next lookup
 	}
 }
 
@@ -122,6 +123,7 @@ func WithCustomTypeMappingSingle(key string, valueType string, valueFormat strin
 			Type:   valueType,
 			Format: valueFormat,
 		}
+		service.fullTypeMapping = nil // merged again on the next lookup
 	}
 }
 
-- 
2.43.0


From 9122946168cb8bbd93c386bcb215a10917524813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:43 +0000
Subject: [PATCH 3/8] fix: an output generated twice was written below the work
 directory twice

---
 outputs/json/generate.go    | 4 ++--
 outputs/openapi/generate.go | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/outputs/json/generate.go b/outputs/json/generate.go
index a51b1f3..a5dde26 100644
--- a/outputs/json/generate.go
+++ b/outputs/json/generate.go
@@ -39,8 +39,8 @@ func Generate(filePath string) astra.ServiceFunction {
 		}
 
 		s.Log.Debug().Str("filePath", filePath).Msg("Writing JSON output to file")
-		filePath = path.Join(s.WorkDir, filePath)
-		err = os.WriteFile(filePath, file, 0644)
+		outputPath := path.Join(s.WorkDir, filePath)
+		err = os.WriteFile(outputPath, file, 0644)
 		if err != nil {
 			s.Log.Error().Err(err).Msg("Failed to write JSON output to file")
 			return err
diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 7829bbf..d771061 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -313,14 +313,14 @@ func Generate(filePath string) astra.ServiceFunction {
 			return err
 		}
 
-		filePath = path.Join(s.WorkDir, filePath)
-		err = os.WriteFile(filePath, file, 0644)
+		outputPath := path.Join(s.WorkDir, filePath)
+		err = os.WriteFile(outputPath, file, 0644)
 		if err != nil {
 			s.Log.Error().Err(err).Msg("Failed to write OpenAPI schema file")
 			return err
 		}
 
-		s.Log.Debug().Str("filePath", filePath).Msg("Successfully generated OpenAPI schema file")
+		s.Log.Debug().Str("filePath", outputPath).Msg("Successfully generated OpenAPI schema file")
 
 		return nil
 	}
-- 
2.43.0


From 94b8926d2b7150f56b897e668b917df0a6bd4bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:43 +0000
Subject: [PATCH 4/8] fix: cleaning left the temporary main package in request
 and response headers

---
 clean.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clean.go b/clean.go
index 35a57f3..df8374d 100644
--- a/clean.go
+++ b/clean.go
@@ -29,6 +29,12 @@ func (s *Service) Clean() error {
 		for j := 0; j < len(s.Routes[i].Body); j++ {
 			s.Routes[i].Body[j].Field = s.cleanField(s.Routes[i].Body[j].Field, mainPkg)
 		}
+		for j := 0; j < len(s.Routes[i].RequestHeaders); j++ {
+			s.Routes[i].RequestHeaders[j].Field = s.cleanField(s.Routes[i].RequestHeaders[j].Field, mainPkg)
+		}
+		for j := 0; j < len(s.Routes[i].ResponseHeaders); j++ {
+			s.Routes[i].ResponseHeaders[j].Field = s.cleanField(s.Routes[i].ResponseHeaders[j].Field, mainPkg)
+		}
 	}
 
 	s.Log.Info().Msg("Cleaning up structs complete")
-- 
2.43.0


From d3850fd8bda418baf7c31b6db4606b1c15bfdccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:27 +0000
Subject: [PATCH 5/8] fix: convert every placeholder of a path to the Azure
 template of the parameter it names

Replacing ":name" everywhere in the path also replaced it inside longer placeholders
("/:ab/:a" became "/{ab{a:alpha}lpha}/:a").
---
 outputs/azureFunctions/convertRoute.go | 34 +++++++++++++++-----------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/outputs/azureFunctions/convertRoute.go b/outputs/azureFunctions/convertRoute.go
index c34d171..5a7fd63 100644
--- a/outputs/azureFunctions/convertRoute.go
+++ b/outputs/azureFunctions/convertRoute.go
@@ -1,9 +1,8 @@
 package azureFunctions
 
 import (
-	"strings"
-
 	"github.com/ls6-events/astra"
+	"github.com/ls6-events/astra/utils"
 )
 
 // Adapted from https://learn.microsoft.com/en-us/aspnet/web-api/overview/web-api-routing-and-actions/attribute-routing-in-web-api-2#route-constraints
@@ -26,21 +25,28 @@ var acceptedTypeMap = map[string]string{
 }
 
 func convertRoute(route astra.Route) string {
-	routeString := route.Path
+	// Every placeholder of the path is replaced by the template of the path parameter it names.
+	templates := make(map[string]string)
+	for _, pathParam := range route.PathParams {
+		azureType, ok := acceptedTypeMap[pathParam.Field.Type]
+		if !ok {
+			continue
+		}
 
-	for _, pathParams := range route.PathParams {
-		if azureType, ok := acceptedTypeMap[pathParams.Field.Type]; ok {
-			if azureType == "" {
-				return ""
-			}
+		placeholder, template := ":"+pathParam.Name, "{"+pathParam.Name+":"+azureType+"}"
+		if !pathParam.IsRequired {
+			placeholder, template = "*"+pathParam.Name, "{"+pathParam.Name+":"+azureType+"?}"
+		}
 
-			if pathParams.IsRequired {
-				routeString = strings.Replace(routeString, ":"+pathParams.Name, "{"+pathParams.Name+":"+azureType+"}", 1)
-			} else {
-				routeString = strings.Replace(routeString, "*"+pathParams.Name, "{"+pathParams.Name+":"+azureType+"?}", 1)
-			}
+		if _, ok := templates[placeholder]; !ok {
+			templates[placeholder] = template
 		}
 	}
 
-	return routeString
+	return utils.MapPathParams(route.Path, func(placeholder string) string {
+		if template, ok := templates[placeholder]; ok {
+			return template
+		}
+		return placeholder
+	})
 }
-- 
2.43.0


From 94b8ca0b24bc9532143792700cccd06ad99c49d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:04 +0000
Subject: [PATCH 6/8] fix: rebind a cached Azure Functions output when its
 directory path is present

---
 cli/astra/cmd/rebind.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/astra/cmd/rebind.go b/cli/astra/cmd/rebind.go
index ec4d33a..d549c60 100644
--- a/cli/astra/cmd/rebind.go
+++ b/cli/astra/cmd/rebind.go
@@ -50,7 +50,7 @@ func rebindOutputs(s *astra.Service) error {
 		switch output.Mode {
 		case outputs.OutputModeAzureFunctions:
 			directoryPath, ok := output.Configuration[astra.IOConfigurationKeyDirectoryPath].(string)
-			if ok || directoryPath == "" {
+			if !ok || directoryPath == "" {
 				return astra.ErrOutputDirectoryPathRequired
 			}
 			outputs.WithAzureFunctionsOutput(directoryPath)(s)
-- 
2.43.0


From 24b944b7c562dacbc757714266d652fe26defcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:04 +0000
Subject: [PATCH 7/8] fix: leave function fields out of the YAML cache
 (encoding them panicked)

---
 input.go  | 4 ++--
 output.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/input.go b/input.go
index d74e0e1..742c4a9 100644
--- a/input.go
+++ b/input.go
@@ -3,8 +3,8 @@ package astra
 // Input is the input for the generator.
 type Input struct {
 	Mode         InputMode       `json:"mode"`
-	CreateRoutes ServiceFunction `json:"-"`
-	ParseRoutes  ServiceFunction `json:"-"`
+	CreateRoutes ServiceFunction `json:"-" yaml:"-"`
+	ParseRoutes  ServiceFunction `json:"-" yaml:"-"`
 }
 
 type InputMode string
diff --git a/output.go b/output.go
index 8f08481..8719e89 100644
--- a/output.go
+++ b/output.go
@@ -4,7 +4,7 @@ package astra
 // It takes in a configuration object to allow the caching mechanism to store the file paths for the outputs.
 type Output struct {
 	Mode          OutputMode      `json:"mode"`
-	Generate      ServiceFunction `json:"-"`
+	Generate      ServiceFunction `json:"-" yaml:"-"`
 	Configuration IOConfiguration `json:"configuration"`
 }
 
-- 
2.43.0


From 28b54ba54cca93fa813c20d65c11197f86f2a7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:04 +0000
Subject: [PATCH 8/8] fix: restore the custom type mapping from the cache

---
 cache.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cache.go b/cache.go
index c6865bc..ac2333b 100644
--- a/cache.go
+++ b/cache.go
@@ -109,6 +109,13 @@ func (s *Service) LoadCacheFromCustomPath(cachePath string) error {
 	s.Config = service.Config
 	s.Routes = service.Routes
 	s.Components = service.Components
+
+	s.CustomTypeMapping = service.CustomTypeMapping
+	if s.CustomTypeMapping == nil {
+		s.CustomTypeMapping = make(map[string]TypeFormat)
+	}
+	s.fullTypeMapping = nil // merged again on the next lookup
+
 	return nil
 }
 
-- 
2.43.0

