package gocui

// Observation points of the headless build: what is written to which view, and a
// queue of updates, taken in any order, instead of one goroutine per update.

import (
	"encoding/json"
	"math/rand"
	"os"
	"sync"
	"sync/atomic"
	"time"
)

// VerifKeys and VerifDraws count the keys handled and the times the screen was drawn
var VerifKeys, VerifDraws atomic.Int64

// VerifWrite, when set, sees every write to a view
var VerifWrite func(view string, p []byte)

var (
	verifmu    sync.Mutex
	veriflog   *os.File
	verifonce  sync.Once
	verifdirty atomic.Bool
	verifq     = map[*Gui][]func(*Gui) error{}
	verifleft  = map[*Gui]int{} // Updates not done
)

func verifWrote(view string, p []byte) {
	if VerifWrite != nil {
		VerifWrite(view, p)
	}
	verifonce.Do(func() {
		if n := os.Getenv("VERIF_UI_LOG"); n != "" {
			veriflog, _ = os.OpenFile(n, os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0644)
		}
	})
	if veriflog != nil {
		b, _ := json.Marshal(struct{ V, T string }{view, string(p)})
		veriflog.Write(append(b, '\n'))
		verifdirty.Store(view == "cmd" || verifdirty.Load())
	}
}

// verifFlushed logs that what was written to the command view is on the screen
func verifFlushed() {
	VerifDraws.Add(1)
	if verifdirty.Load() && veriflog != nil {
		verifdirty.Store(false)
		veriflog.Write([]byte("{\"V\":\"shown\",\"T\":\".\"}\n"))
	}
}

// verifQueue hands f to the main loop without blocking.  The goroutines of the original come in no order either.
func verifQueue(g *Gui, f func(*Gui) error) {
	if g.userEvents == nil {
		panic("gocui: Update on a Gui without NewGui")
	}
	verifmu.Lock()
	q, running := verifq[g]
	verifleft[g]++
	verifq[g] = append(q, func(g *Gui) error {
		err := f(g)
		verifmu.Lock()
		verifleft[g]--
		verifmu.Unlock()
		return err
	})
	verifmu.Unlock()
	if running {
		return
	}
	go func() {
		for {
			verifmu.Lock()
			q := verifq[g]
			if len(q) == 0 {
				delete(verifq, g)
				verifmu.Unlock()
				return
			}
			i := rand.Intn(len(q))
			f := q[i]
			q[i] = q[len(q)-1]
			verifq[g] = q[:len(q)-1]
			verifmu.Unlock()
			g.userEvents <- userEvent{f: f}
		}
	}()
}

// VerifUpdate runs f in the main loop when all updates so far, and those they ask for, are done, and waits for it
func (g *Gui) VerifUpdate(f func(g *Gui)) {
	for n := 1; n != 0; time.Sleep(10 * time.Microsecond) {
		verifmu.Lock()
		n = verifleft[g]
		verifmu.Unlock()
	}
	done := make(chan bool)
	g.userEvents <- userEvent{f: func(g *Gui) error {
		f(g)
		close(done)
		return nil
	}}
	<-done
}
