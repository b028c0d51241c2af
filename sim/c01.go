package main

func init() {
	scenarios["C01"] = scC01
	scenarios["C02"] = scC02
	scenarios["C11"] = scC11
}

// C01: replicas with different local lives execute the same blocks.
func scC01(w *World) {
	runCluster(w, ClusterOpts{Blocks: 12, PerBlock: 8, Replicas: 2, Noise: 2, Proposals: true, Crash: 4, Opts: RigOpts{}})
}

// C02: crashes at storage writes, power losses and disk errors.
func scC02(w *World) {
	runCluster(w, ClusterOpts{Blocks: 14, PerBlock: 6, Replicas: 2, Noise: 1, Crash: 40, WriteCrash: true, DiskErr: true, Power: true,
		Cfg: func(i int, r *Rng) NodeCfg {
			c := NodeCfg{Index: r.P(3, 4), IavlCache: pick(r, []int{0, 1, 10000})}
			if r.P(1, 8) {
				c.Pruning = [2]uint64{uint64(r.In(2, 8)), 10}
			}
			return c
		}})
}

// C11: a quiet node against nodes under heavy local load, with a model of historical answers.
func scC11(w *World) {
	runCluster(w, ClusterOpts{Blocks: 10, PerBlock: 6, Replicas: 2, Noise: 5, Proposals: true, Hist: true,
		Cfg: func(i int, r *Rng) NodeCfg {
			c := NodeCfg{Index: r.P(3, 4)}
			return c
		}})
}
