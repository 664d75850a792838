package inputs

import (
	"github.com/gin-gonic/gin"
	"github.com/ls6-events/astra"
	vc "github.com/ls6-events/astra/zzvc"
)

// The stages of the gin input are functions of their own.
//
//vc:model github.com/ls6-events/astra/inputs/gin.CreateRoutes
func ZZGinCreateRoutes(r *gin.Engine) astra.ServiceFunction {
	return vc.GhostVal[astra.ServiceFunction]("ginCreateRoutes", r)
}

//vc:model github.com/ls6-events/astra/inputs/gin.ParseRoutes
func ZZGinParseRoutes() astra.ServiceFunction {
	return vc.GhostVal[astra.ServiceFunction]("ginParseRoutes", 0)
}

// ZZIsGin: in is the gin input of a router.
func ZZIsGin(in *astra.Input, r *gin.Engine) bool {
	return in.Mode == InputModeGin && vc.SameFunc(in.CreateRoutes, ZZGinCreateRoutes(r)) && vc.SameFunc(in.ParseRoutes, ZZGinParseRoutes())
}

//vc:lemma
//vc:noreplay
//vc:prop C10
func zzWithGinInput(s *astra.Service, r *gin.Engine) {
	vc.Requires(s != nil)
	vc.Modifies(s)
	vc.ModifiesSpare(s.Inputs)
	o, was := *s, vc.Snap(s.Inputs)
	WithGinInput(r)(s)
	n := len(was)
	vc.Ensures("one input is added", len(s.Inputs) == n+1 && ZZIsGin(&s.Inputs[n], r))
	vc.Ensures("the rest is kept", vc.Forall(0, n, func(i int) bool { return vc.Same(s.Inputs[i], was[i]) }))
	o.Inputs = s.Inputs
	vc.Ensures("service otherwise unchanged", vc.Same(*s, o))
}
