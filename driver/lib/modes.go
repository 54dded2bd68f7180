package lib

// Modes are the kinds of cases the driver can execute: one line in, one out.
var Modes = map[string]func([]byte) ([]byte, error){
	"cons":    RunBeh,
	"maybe":   RunMaybe,
	"schema":  RunSchema,
	"total":   RunTotal,
	"builds":  RunBuilds,
	"gen":     RunGen,
	"regen":   RunRegen,
	"emit":    RunEmit,
	"concval": RunConcVal,
	"concops": RunConcOps,
	"libgen":  RunLibGen,
	"server":  RunServer,
	"config":  RunConfig,
	"big":     RunBig,
}
