# Writes /verif/properties.jsonl (kept as a script so that the text is easy to maintain).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Documented routes are exactly the registered routes that are not denied",
  "After routes are created from a gin router, the service's route list is its previous list followed by one entry for each registered route whose path no deny rule (exact, regular expression or function) matches, in registration order, each entry carrying that route's own method, path and handler name. Routes that are denied, and nothing else, are left out, and each deny option appends exactly one rule that matches what the option names. Replacing a route changes only the first entry with the same path and method.",
  ["inputs","configurations"],"every router content, every list of deny rules, every previous route list",
  "The tests register a handful of routes and one deny rule at a time; they sample neither long mixed route lists nor combinations of rules.",
  ["inputs/gin/createRoutes.go","inputs/gin/createRoute.go","listing.go","routes.go"],
  [("loop over router.Routes with deny check","inputs/gin/createRoutes.go:CreateRoutes"),("one route appended per registration","inputs/gin/createRoute.go:createRoute, routes.go:AddRoute"),("deny options","listing.go")])
p("C02","Path parameters are exactly the path's placeholders",
  "The parameters extracted from a route path are exactly its placeholders (a ':' or '*' followed by at least one non-slash character, up to the next slash), in order, named by the text after the marker, of type string, and required exactly when the marker is ':'. Rewriting a path replaces each placeholder by the rewriting function's result and leaves every other character alone.",
  ["inputs"],"every path string","Tests try a few fixed paths; the claim is over all strings.",
  ["utils/pathParams.go"],[("placeholder pattern","utils/pathParams.go:getPathParamRegex"),("parameter construction","utils/pathParams.go:ExtractParamsFromPath"),("rewrite","utils/pathParams.go:MapPathParams")])
p("C03","De-duplication of responses and components loses nothing and repeats nothing",
  "Adding responses (or components) to a list keeps every entry already in the list, in order, ends up containing an entry equal in key (type, package, status and content type for responses; name and package for components) to each added one, contains no entry that was in neither, and never appends an entry whose key is already present. Adding to a list without duplicate keys therefore yields a list without duplicate keys.",
  ["inputs","histories"],"every list of any length and every sequence of additions",
  "Tests use lists of at most two or three entries; losses or duplicates that need longer lists or particular orders go unseen.",
  ["safePushing.go"],[("response de-duplication","safePushing.go:AddReturnType"),("component de-duplication","safePushing.go:AddComponent")])
p("C04","Struct tags decide binding names and required flags",
  "For every struct field and tag, each of the binding tags header, form, uri, json, xml and yaml that is present yields a binding whose name is the tag's first comma-separated item (the field name when that item is empty), which is hidden exactly when that item is '-', and optional exactly when the second item is 'omitempty'; a field with none of these tags gets exactly one default binding under the field's own name. For each of the validation tags binding and validate with a non-empty value there is a validation entry, required exactly when the value contains 'required', and there are no other entries.",
  ["inputs"],"every field name and tag string","Tests try a dozen tag strings; the combinations of six binding tags, options and validation tags are unbounded.",
  ["astTraversal/tags.go"],[("tag parsing","astTraversal/tags.go:ParseStructTag")])
p("C05","A struct's schema lists exactly its visible fields",
  "For a struct component without a type mapping that is bound for a binding type, the generated schema has type object and its properties are exactly the non-embedded fields not hidden for that binding, under their binding names, each with the schema of that field; every embedded field whose type is documented for that binding contributes exactly one reference in allOf, next to the properties. A component with a non-embedded field that has neither that binding nor a default binding is reported as unbound.",
  ["inputs"],"every struct component, any number of fields and any tags",
  "Integration tests render a few fixed structs with few fields.",
  ["outputs/openapi/components.go"],[("struct branch","outputs/openapi/components.go:componentToSchema")])
p("C07","Components of different types never share a schema name",
  "When the OpenAPI document is generated, two components that differ in package or type name are never given the same schema name for any binding, whatever their order and whatever was generated earlier in the same process, and every component has a name under which its schema is published.",
  ["inputs","histories"],"every list of components and every order","The only test has two packages with the same last element.",
  ["outputs/openapi/components.go"],[("name table","outputs/openapi/components.go:makeCollisionSafeNamesFromComponents")])
p("C06","Every schema reference resolves",
  "Every $ref in a generated OpenAPI document names a schema that the same document defines.",
  ["inputs","programs"],"every set of components and routes","Snapshot tests cover two small services.",
  ["outputs/openapi/components.go","outputs/openapi/schema.go","outputs/openapi/generate.go"],[("references","outputs/openapi/components.go:makeComponentRef"),("definitions","outputs/openapi/generate.go:Generate")])
p("C08","Cleaning removes every trace of the temporary main package",
  "After cleaning, no field of any component or of any route's responses, path, query or body parameters or headers, at any nesting depth, refers to the temporary main package as its package or map key package: each such reference has become 'main'. Types that have a documented substitute (time.Duration to int, error to string) are given it and lose their inner structure, and apart from these changes every field, list and entry is left exactly as it was.",
  ["inputs"],"every list of components and routes, any nesting","Tests clean one or two flat fields.",
  ["clean.go","substituteTypes.go"],[("recursive cleaning","clean.go:Clean, cleanField"),("substitution","substituteTypes.go:HandleSubstituteTypes")])
p("C09","Lifecycle stages run every input and output once, in order, until an error",
  "Creating routes, parsing routes and generating call the corresponding function of every input (output) exactly once, in the order they were added, and stop with that function's error at the first failure; a full parse refuses to start without inputs or outputs and otherwise runs setup, route creation, route parsing, cleaning, generation and teardown in this order, returning the first stage's error. With caching enabled each of setup, route creation, route parsing, cleaning and generation ends by writing the cache and reports its failure; with caching disabled none does.",
  ["fault_sequences","configurations","histories"],"every number of inputs and outputs, every position and combination of failures, caching on or off",
  "Tests use one input and one failure.",
  ["createRoutes.go","parseRoutes.go","generate.go","setup.go","clean.go","parse.go"],[("stage loops","createRoutes.go, parseRoutes.go, generate.go"),("stage order","parse.go")])
p("C10","The cache and the CLI restore the service that was cached",
  "Loading a cache restores into the service the inputs, outputs, configuration, routes, components and custom type mapping of the decoded cache, and changes nothing when the file cannot be read or decoded or has an unknown extension. Rebinding in the CLI gives each cached input and output, in order, the option for its own mode and its own configured path, and reports an error for an unknown mode or a missing path.",
  ["inputs","configurations"],"every cached service and every list of modes and paths","Tests round-trip one small service; the CLI has no tests.",
  ["cache.go","cli/astra/cmd/rebind.go","outputs/outputs.go","inputs/inputs.go"],[("restore","cache.go:LoadCacheFromCustomPath"),("rebind","cli/astra/cmd/rebind.go")])
p("C11","Astra deletes and writes only its own files",
  "The library deletes nothing but the .astra directory of the work directory, the temporary main package inside it, the configured cache file and the configured output directory, and creates or writes nothing outside .astra, the configured cache file and the configured output; teardown removes .astra exactly when caching is off and no CLI mode is set, and otherwise removes only the temporary main package. A failed teardown deletion is not reported as a failed generation.",
  ["inputs","configurations","fault_sequences"],"every work directory, configuration and pattern of file system errors","Tests run in one scratch directory with well-behaved settings and never observe which paths are deleted.",
  ["dir.go","mainPackage.go","cache.go","teardown.go"],[("paths built from the work directory","dir.go, mainPackage.go, cache.go"),("teardown rule","teardown.go:Teardown")])
p("C12","Configuration is validated, defaulted and carried over exactly",
  "Validating a configuration fails exactly when the port is zero; host becomes 'localhost' and, on success, base path becomes '/' exactly when they were empty, and nothing else changes. Each builder setter sets the field it names and no other, and building returns the configuration as set, with the defaults, or the validation error.",
  ["inputs","histories"],"every configuration and every sequence of setters","Tests check a few fixed values and never that the other fields are untouched.",
  ["config.go","configBuilder.go"],[("validation","config.go:Validate"),("builder","configBuilder.go")])
p("C13","Type mappings: custom mappings win, everything else is the predefined table",
  "Looking up a type's OpenAPI mapping returns the custom mapping when one was registered for its key (the bare name for accepted basic types, package.name otherwise), else the predefined mapping for that key, else reports that there is none; looking up never changes the predefined table or the custom mappings. Registering a mapping adds or replaces exactly the named keys.",
  ["inputs","histories"],"every key, package and set of custom mappings","Tests look up a few keys.",
  ["formatTypes.go","accepted.go"],[("lookup","formatTypes.go:GetTypeMapping"),("options","formatTypes.go:WithCustomTypeMapping")])
p("C14","Each recognised gin context call adds exactly what it documents",
  "When a handler is analysed, each call on the gin context adds exactly the item documented for that method, built from that call's own arguments (for responses: status code and content type; for query, form and header access: the name and whether it is an array or a map; for binding calls: the bound type under the method's content types), and leaves everything recorded before in place; calls of unrecognised methods add nothing.",
  ["programs"],"every recognised method and every argument value","Tests use hand-written handlers for part of the methods, and check part of the route.",
  ["inputs/gin/parseFunction.go"],[("method table","inputs/gin/parseFunction.go:parseFunction")])
p("C15","Custom function builders see each argument at its own position",
  "Building a custom function's arguments evaluates the declared parameters in order, each against the call argument at its own position (an ignored parameter still takes up a position and yields nil), stops at the first failing one with its error and without calling the mapper, and otherwise calls the mapper exactly once with the route and exactly these results in order and returns what it returns.",
  ["inputs","programs"],"every sequence of declared parameters and every failure position","Tests declare at most two parameters.",
  ["contextFuncBuilder.go"],[("builder","contextFuncBuilder.go")])
p("C16","Converting an analysed type keeps all of it",
  "Turning the result of type analysis into a field keeps type, name, enum values, embedding, slice, array, map and tag information unchanged, trims the documentation, carries the package exactly when the type or one of its element types is not a basic type or the type is named, carries the map key package exactly when there is a map key type that is not basic, and does the same for every nested struct field under the same name, with none added or lost.",
  ["inputs"],"every result, any nesting","Tests convert a few fixed results.",
  ["utils.go","accepted.go"],[("conversion","utils.go:ParseResultToField")])
p("C17","Package paths and handler names split and join without loss",
  "Splitting a handler name and joining its package part and handler part again with a dot yields the original name whenever it has a handler part, the package part contains no dot after its last slash, and the package name is the package path's last element. Adding a package path to the package tree returns a node whose path is that path, finding it afterwards returns the same node, adding it again creates nothing, and every other package found before is still found as the same node.",
  ["inputs","histories"],"every handler string, every sequence of package paths","Tests use a few short paths.",
  ["utils/splitHandlerPath.go","astTraversal/packageManager.go","astTraversal/packageNode.go"],[("split and join","utils/splitHandlerPath.go"),("tree","astTraversal/packageManager.go:AddPackage, Find; astTraversal/packageNode.go:Path")])
p("C18","Azure Functions output has one correct binding file per route",
  "The Azure Functions output creates for every route, in order, one directory named after the handler's last dot-separated element holding a function file with exactly an incoming HTTP trigger, whose methods are the route's method in lower case and 'options' and whose route is the converted path, and an outgoing HTTP response; the first failure stops generation with its error and the final directory is put in place only after all routes succeeded.",
  ["inputs","fault_sequences"],"every list of routes and every failure position","Tests generate one or two routes on a healthy file system.",
  ["outputs/azureFunctions/generate.go","outputs/azureFunctions/associatedMethods.go","outputs/azureFunctions/convertRoute.go"],[("generation loop","outputs/azureFunctions/generate.go:Generate")])
p("C19","Every route appears in the OpenAPI document as its own operation",
  "The generated OpenAPI document has, for each route with a standard method, an operation under its rewritten path and method that carries that route's parameters, request bodies, responses with all their status codes, description and operation id, and keeps the operations of other methods of the same path. The server URL is built from the configured scheme, host, port and base path, and the file is written to the configured path, with .json added when it has no known extension.",
  ["inputs","configurations"],"every list of routes and every configuration","Snapshot tests cover two small services.",
  ["outputs/openapi/generate.go"],[("generation","outputs/openapi/generate.go:Generate")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in sorted(P,key=lambda x:x["id"])))
