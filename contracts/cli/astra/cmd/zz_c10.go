package cmd

import (
	"github.com/gin-gonic/gin"
	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/inputs"
	"github.com/ls6-events/astra/outputs"
	vc "github.com/ls6-events/astra/zzvc"
)

//vc:model github.com/ls6-events/astra/outputs/azureFunctions.Generate
func zzAzureGenerate(p string) astra.ServiceFunction { return outputs.ZZAzureGenerate(p) }

//vc:model github.com/ls6-events/astra/outputs/json.Generate
func zzJSONGenerate(p string) astra.ServiceFunction { return outputs.ZZJSONGenerate(p) }

//vc:model github.com/ls6-events/astra/outputs/openapi.Generate
func zzOpenAPIGenerate(p string) astra.ServiceFunction { return outputs.ZZOpenAPIGenerate(p) }

//vc:model github.com/ls6-events/astra/inputs/gin.CreateRoutes
func zzGinCreateRoutes(r *gin.Engine) astra.ServiceFunction { return inputs.ZZGinCreateRoutes(r) }

//vc:model github.com/ls6-events/astra/inputs/gin.ParseRoutes
func zzGinParseRoutes() astra.ServiceFunction { return inputs.ZZGinParseRoutes() }

// zzPath is the path a cached output is configured with.
func zzPath(o *astra.Output) string {
	k := astra.IOConfigurationKeyFilePath
	if o.Mode == outputs.OutputModeAzureFunctions {
		k = astra.IOConfigurationKeyDirectoryPath
	}
	p, _ := o.Configuration[k].(string)
	return p
}

func zzKnown(o *astra.Output) bool {
	return o.Mode == outputs.OutputModeAzureFunctions || o.Mode == outputs.OutputModeJSON || o.Mode == outputs.OutputModeOpenAPI
}

// zzRebound: r is what the option for the mode and path of the cached output adds.
func zzRebound(r, o *astra.Output) bool {
	p := zzPath(o)
	switch o.Mode {
	case outputs.OutputModeAzureFunctions:
		return outputs.ZZIsOutput(r, o.Mode, astra.IOConfigurationKeyDirectoryPath, p, outputs.ZZAzureGenerate(p))
	case outputs.OutputModeJSON:
		return outputs.ZZIsOutput(r, o.Mode, astra.IOConfigurationKeyFilePath, p, outputs.ZZJSONGenerate(p))
	case outputs.OutputModeOpenAPI:
		return outputs.ZZIsOutput(r, o.Mode, astra.IOConfigurationKeyFilePath, p, outputs.ZZOpenAPIGenerate(p))
	}
	return false
}

//vc:contract rebindOutputs
//vc:noreplay
//vc:prop C10
func zzRebindOutputs(s *astra.Service) {
	vc.Requires(s != nil)
	vc.Modifies(s)
	o, in := *s, s.Outputs
	vc.Invariant(func(v_i int) bool {
		return len(s.Outputs) == v_i && vc.Forall(0, v_i, func(j int) bool { return zzRebound(&s.Outputs[j], &in[j]) })
	})
	vc.Invariant(func(v_i int) bool {
		return vc.Forall(0, v_i, func(j int) bool { return zzKnown(&in[j]) && zzPath(&in[j]) != "" })
	})
	vc.Invariant(func() bool {
		w := o
		w.Outputs = s.Outputs
		return vc.Same(*s, w) && (s.Outputs == nil || vc.Fresh(s.Outputs))
	})
	err := rebindOutputs(s)
	good := vc.Forall(0, len(in), func(j int) bool { return zzKnown(&in[j]) && zzPath(&in[j]) != "" })
	vc.Ensures("an error exactly for an unknown mode or a missing path", (err == nil) == good)
	vc.Ensures("every cached output in order, with its own mode, path and generator", err != nil || len(s.Outputs) == len(in) && vc.Forall(0, len(in), func(j int) bool { return zzRebound(&s.Outputs[j], &in[j]) }))
	w := o
	w.Outputs = s.Outputs
	vc.Ensures("service otherwise unchanged", vc.Same(*s, w))
}

//vc:contract rebindInputs
//vc:noreplay
//vc:prop C10
func zzRebindInputs(s *astra.Service) {
	vc.Requires(s != nil)
	vc.Modifies(s)
	o, in := *s, s.Inputs
	vc.Invariant(func(v_i int) bool {
		return len(s.Inputs) == v_i && vc.Forall(0, v_i, func(j int) bool { return inputs.ZZIsGin(&s.Inputs[j], nil) })
	})
	vc.Invariant(func(v_i int) bool {
		return vc.Forall(0, v_i, func(j int) bool { return in[j].Mode == inputs.InputModeGin })
	})
	vc.Invariant(func() bool {
		w := o
		w.Inputs = s.Inputs
		return vc.Same(*s, w) && (s.Inputs == nil || vc.Fresh(s.Inputs))
	})
	err := rebindInputs(s)
	good := vc.Forall(0, len(in), func(j int) bool { return in[j].Mode == inputs.InputModeGin })
	vc.Ensures("an error exactly for an unknown mode", (err == nil) == good)
	vc.Ensures("every cached input in order", err != nil || len(s.Inputs) == len(in) && vc.Forall(0, len(in), func(j int) bool { return inputs.ZZIsGin(&s.Inputs[j], nil) }))
	w := o
	w.Inputs = s.Inputs
	vc.Ensures("service otherwise unchanged", vc.Same(*s, w))
}

//vc:contract rebindOptions
//vc:noreplay
//vc:prop C10
func zzRebindOptions(s *astra.Service) {
	vc.Requires(s != nil)
	vc.Modifies(s)
	o, in, out := *s, s.Inputs, s.Outputs
	err := rebindOptions(s)
	good := vc.Forall(0, len(in), func(j int) bool { return in[j].Mode == inputs.InputModeGin }) &&
		vc.Forall(0, len(out), func(j int) bool { return zzKnown(&out[j]) && zzPath(&out[j]) != "" })
	vc.Ensures("an error exactly when something cannot be restored", (err == nil) == good)
	vc.Ensures("every cached input", err != nil || len(s.Inputs) == len(in) && vc.Forall(0, len(in), func(j int) bool { return inputs.ZZIsGin(&s.Inputs[j], nil) }))
	vc.Ensures("every cached output", err != nil || len(s.Outputs) == len(out) && vc.Forall(0, len(out), func(j int) bool { return zzRebound(&s.Outputs[j], &out[j]) }))
	o.Inputs, o.Outputs = s.Inputs, s.Outputs
	vc.Ensures("service otherwise unchanged", vc.Same(*s, o))
}
