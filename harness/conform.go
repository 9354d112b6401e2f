//go:build go1.23

package main

import (
	"context"
	"fmt"
	"time"

	"github.com/aws/go-kafka-event-source/streams/zverif/vcontext"
	"github.com/aws/go-kafka-event-source/streams/zverif/vkafka"
	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
	"github.com/aws/go-kafka-event-source/streams/zverif/vtime"
)

// conform runs the scripts of conform/scripts with the modelled client and broker, on the default schedule. Their
// transcripts are compared with those of the real client (bin/conform).
func conform() {
	for _, s := range conformScripts {
		s := s
		fmt.Println(s.name)
		r := vsched.Run(vsched.Config{MaxSteps: 200000, Fair: 200, Choose: func(int, bool) int { return 0 }}, func() {
			c := vkafka.Get(seed)
			for _, g := range []string{"g"} {
				c.Group(g).Auto(c)
			}
			vkafka.Protocol = ""
			s.run(&conformEnv{seed: seed,
				say:   func(f string, a ...any) { fmt.Printf(f+"\n", a...) },
				sleep: vtime.Sleep,
				topic: func(n string, parts int) { c.CreateTopic(n, parts, 1, nil) },
				ctx:   func(d time.Duration) (context.Context, func()) { return vcontext.WithTimeout(vcontext.Background(), d) }})
			vsched.Stop()
		})
		if sig, msg := verdict(&Scenario{}, r); sig != "" {
			fmt.Println("  FAILED:", sig, msg)
		}
	}
}
