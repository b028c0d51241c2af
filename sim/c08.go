package main

func init() { scenarios["C08"] = scC08 }

// scC08 runs blocks of token operations through every interface and compares
// both views of every balance and supply with an exact ledger.
func scC08(w *World) {
	r := NewRng(w.seed, "c08")
	d := &LRun{w: w, zeroFee: true}
	o := ClusterOpts{Blocks: 12, PerBlock: 8, Scripts: 3}
	if r.P(1, 4) {
		o.Replicas, o.Crash, o.WriteCrash, o.Power = 1, 20, true, true
	}
	o.Pre = d.init
	o.Gen = d.gen
	o.OnRef = d.onRef
	runCluster(w, o)
	d.full(false)
}
