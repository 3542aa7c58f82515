package termbox

// Headless stand-in for the terminal: a fixed size screen, keys from a channel
// or (VERIF_UI_STDIN=1) from standard input.  The rest of termbox is not needed.

import (
	"bufio"
	"os"
	"sync"
)

var (
	mu   sync.Mutex
	w, h = 160, 50
	keys = make(chan Event, 4096)
	once sync.Once
)

// VerifSize sets the size of the screen
func VerifSize(x, y int) { mu.Lock(); w, h = x, y; mu.Unlock() }

// VerifKey queues a key press
func VerifKey(ev Event) { keys <- ev }

func Init() error {
	mu.Lock()
	defer mu.Unlock()
	IsInit = true
	if os.Getenv("VERIF_UI_STDIN") == "1" {
		once.Do(func() {
			go func() {
				r := bufio.NewReader(os.Stdin)
				for {
					c, _, err := r.ReadRune()
					if err != nil {
						return
					}
					ev := Event{Type: EventKey}
					switch {
					case c == '\n':
						ev.Key = KeyEnter
					case c == ' ':
						ev.Key = KeySpace
					case c < 0x20 || c == 0x7f:
						ev.Key = Key(c)
					default:
						ev.Ch = c
					}
					keys <- ev
				}
			}()
		})
	}
	return nil
}

// VerifCells makes the screen keep its cells; VerifScreen is what was last put on it
var (
	VerifCells   bool // Set before the screen is first drawn
	back, front  []Cell
	backw, backh int
	cx, cy       int
	shownw       int
	shownx       int
	showny       int
)

// VerifScreen returns the cells on the screen, its width and where the cursor is (-1,-1: hidden)
func VerifScreen() (cells []Cell, width, x, y int) {
	mu.Lock()
	defer mu.Unlock()
	return append([]Cell(nil), front...), shownw, shownx, showny
}

func Close() { mu.Lock(); IsInit = false; mu.Unlock() }

func Flush() error {
	if VerifCells {
		mu.Lock()
		front = append(front[:0], back...)
		shownw, shownx, showny = backw, cx, cy
		mu.Unlock()
	}
	return nil
}

func SetCursor(x, y int) { cx, cy = x, y }
func HideCursor()        { cx, cy = -1, -1 }

func SetCell(x, y int, ch rune, fg, bg Attribute) {
	if x >= 0 && x < backw && y >= 0 && y < backh {
		back[y*backw+x] = Cell{ch, fg, bg}
	}
}

func Clear(fg, bg Attribute) error {
	if VerifCells {
		backw, backh = Size()
		back = back[:0]
		for i := 0; i < backw*backh; i++ {
			back = append(back, Cell{' ', fg, bg})
		}
	}
	return nil
}

func CellBuffer() []Cell                       { return nil }
func PollEvent() Event                         { return <-keys }
func Size() (int, int)                         { mu.Lock(); defer mu.Unlock(); return w, h }
func SetInputMode(mode InputMode) InputMode    { return mode }
func SetOutputMode(mode OutputMode) OutputMode { return mode }
