package main

import sim "github.com/danielleontiev/neojhat/internal/zzverifsim"

func init() { sim.TakeOver(main) }
