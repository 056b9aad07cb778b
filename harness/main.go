package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"sync"
	"time"
)

// replay is a script taken from a recorded or generated history
type replayScript struct {
	h M
	i int
}

func (s *replayScript) start() (M, M, []string) {
	var ix []string
	for _, x := range list(s.h["index"]) {
		ix = append(ix, str(x))
	}
	return objOf(s.h["g0"]), objOf(s.h["v0"]), ix
}
func (s *replayScript) next(*runner, M) M {
	evs := list(s.h["ev"])
	if s.i >= len(evs) {
		return nil
	}
	s.i++
	return evs[s.i-1].(M)
}

func main() {
	prop := flag.String("prop", "", "property whose histories are generated")
	seed := flag.Int64("seed", 1, "")
	count := flag.Int("n", 100, "number of histories")
	out := flag.String("o", "trace.ndjson", "output")
	in := flag.String("replay", "", "replay the histories of this file instead")
	careful := flag.String("careful", "", "write the history in progress to this file")
	limit := flag.Float64("hang", 20, "seconds before an evaluation counts as hanging")
	par := flag.Int("par", 1, "record this many histories at a time")
	zone := flag.Int("zone", 0, "local time zone, minutes east of UTC")
	maxsec := flag.Float64("maxsec", 1e9, "stop generating after this many seconds")
	flag.Parse()
	t0 := time.Now()
	time.Local = time.FixedZone("Z", *zone*60)
	hangLimit = time.Duration(*limit * float64(time.Second))
	f, err := os.Create(*out)
	if err != nil {
		panic(err)
	}
	s := &sink{f: f, careful: *careful}
	if *in != "" {
		r, err := os.Open(*in)
		if err != nil {
			panic(err)
		}
		sc := bufio.NewScanner(r)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for i := 0; sc.Scan(); i++ {
			var h M
			if err := json.Unmarshal(sc.Bytes(), &h); err != nil {
				panic(err)
			}
			id, ok := h["h"].(string)
			if !ok {
				id = fmt.Sprintf("%s-%d", *in, i)
			}
			s.record(id, &replayScript{h: h}, rand.New(rand.NewSource(*seed+int64(i))))
		}
	} else {
		mk, ok := props[*prop]
		if !ok {
			panic("no such property: " + *prop)
		}
		jobs := make(chan int)
		var wg sync.WaitGroup
		if *par > 1 {
			sharePool(*seed)
		}
		for w := 0; w < *par; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range jobs {
					sd := *seed*1000003 + int64(i)
					g := newGen(sd)
					s.record(fmt.Sprintf("%s-%d-%d", *prop, *seed, i), mk(g), rand.New(rand.NewSource(sd+77)))
				}
			}()
		}
		for i := 0; i < *count && time.Since(t0).Seconds() < *maxsec; i++ {
			jobs <- i
		}
		close(jobs)
		wg.Wait()
	}
	f.Close()
	fmt.Printf("histories=%d events=%d\n", s.n, s.events)
}
