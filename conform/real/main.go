// Runs the scripts with the real kgo client against the broker of conform/kfk.
package main

import (
	"context"
	"fmt"
	"os"
	"sync"
	"time"

	"github.com/aws/go-kafka-event-source/streams/zkfk"
)

func main() {
	var wg sync.WaitGroup
	outs := make([][]string, len(conformScripts))
	for i, s := range conformScripts {
		if len(os.Args) > 1 && os.Args[1] != s.name {
			continue
		}
		i, s := i, s
		wg.Add(1)
		go func() {
			defer wg.Done()
			b := kfk.New()
			defer b.Close()
			var mu sync.Mutex
			e := &conformEnv{seed: b.Addr, sleep: time.Sleep, topic: b.CreateTopic,
				say: func(f string, a ...any) {
					mu.Lock()
					outs[i] = append(outs[i], fmt.Sprintf(f, a...))
					mu.Unlock()
				},
				ctx: func(d time.Duration) (context.Context, func()) { return context.WithTimeout(context.Background(), d) }}
			e.say("%s", s.name)
			s.run(e)
		}()
	}
	wg.Wait()
	for _, o := range outs {
		for _, l := range o {
			fmt.Println(l)
		}
	}
}
