package outputs

import (
	"github.com/ls6-events/astra"
	vc "github.com/ls6-events/astra/zzvc"
)

// The generator of each output for each path is a function of its own.
//
//vc:model github.com/ls6-events/astra/outputs/azureFunctions.Generate
func ZZAzureGenerate(p string) astra.ServiceFunction {
	return vc.GhostVal[astra.ServiceFunction]("azureGenerate", p)
}

//vc:model github.com/ls6-events/astra/outputs/json.Generate
func ZZJSONGenerate(p string) astra.ServiceFunction {
	return vc.GhostVal[astra.ServiceFunction]("jsonGenerate", p)
}

//vc:model github.com/ls6-events/astra/outputs/openapi.Generate
func ZZOpenAPIGenerate(p string) astra.ServiceFunction {
	return vc.GhostVal[astra.ServiceFunction]("openapiGenerate", p)
}

// ZZIsOutput: o is the output of a mode, configured with one path under one key.
func ZZIsOutput(o *astra.Output, mode astra.OutputMode, key astra.IOConfigurationKey, p string, g astra.ServiceFunction) bool {
	v, ok := o.Configuration[key]
	s, isS := v.(string)
	return o.Mode == mode && vc.SameFunc(o.Generate, g) && len(o.Configuration) == 1 && ok && isS && s == p
}

// zzAdds: the option appends one output, and changes nothing else.
func zzAdds(s *astra.Service, o astra.Service, was []astra.Output) bool {
	n := len(o.Outputs)
	kept := len(s.Outputs) == n+1 && vc.Forall(0, n, func(i int) bool { return vc.Same(s.Outputs[i], was[i]) })
	o.Outputs = s.Outputs
	return kept && vc.Same(*s, o)
}

//vc:lemma
//vc:noreplay
//vc:prop C10
func zzWithAzureFunctionsOutput(s *astra.Service, p string) {
	vc.Requires(s != nil)
	vc.Modifies(s)
	vc.ModifiesSpare(s.Outputs)
	o, was := *s, vc.Snap(s.Outputs)
	WithAzureFunctionsOutput(p)(s)
	vc.Ensures("one output is added, the rest is kept", zzAdds(s, o, was))
	vc.Ensures("mode, path and generator", ZZIsOutput(&s.Outputs[len(o.Outputs)], OutputModeAzureFunctions, astra.IOConfigurationKeyDirectoryPath, p, ZZAzureGenerate(p)))
}

//vc:lemma
//vc:noreplay
//vc:prop C10
func zzWithJSONOutput(s *astra.Service, p string) {
	vc.Requires(s != nil)
	vc.Modifies(s)
	vc.ModifiesSpare(s.Outputs)
	o, was := *s, vc.Snap(s.Outputs)
	WithJSONOutput(p)(s)
	vc.Ensures("one output is added, the rest is kept", zzAdds(s, o, was))
	vc.Ensures("mode, path and generator", ZZIsOutput(&s.Outputs[len(o.Outputs)], OutputModeJSON, astra.IOConfigurationKeyFilePath, p, ZZJSONGenerate(p)))
}

//vc:lemma
//vc:noreplay
//vc:prop C10
func zzWithOpenAPIOutput(s *astra.Service, p string) {
	vc.Requires(s != nil)
	vc.Modifies(s)
	vc.ModifiesSpare(s.Outputs)
	o, was := *s, vc.Snap(s.Outputs)
	WithOpenAPIOutput(p)(s)
	vc.Ensures("one output is added, the rest is kept", zzAdds(s, o, was))
	vc.Ensures("mode, path and generator", ZZIsOutput(&s.Outputs[len(o.Outputs)], OutputModeOpenAPI, astra.IOConfigurationKeyFilePath, p, ZZOpenAPIGenerate(p)))
}
