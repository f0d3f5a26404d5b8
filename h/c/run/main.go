package main

import (
	"os"
	"time"

	"github.com/metafates/bento/internal/zzverif/vk"
	"github.com/metafates/bento/internal/zzverif/vx"
)

func main() {
	prop := os.Getenv("VERIF_PROP")
	vx.Main(prop, 240*time.Second, 3000*time.Second, jobs(prop, vx.Tier()), func(r *vk.Run) {
		r.Assume("goroutines, channels, locks, time, signals and the terminal are replaced, in the repository's own source, by a controlled scheduler and a simulated terminal; memory is sequentially consistent")
		r.Assume("time passes only when nothing else can happen")
		r.Bound("executions that deviate from the default schedule in up to 2 (thorough: 3) decisions, 1 (2) in programs with injected faults or large commands; a decision is every choice of the next goroutine or select case at every channel operation, lock, read, write, timer, signal or call of user code")
	})
}
