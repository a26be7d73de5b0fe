package simrt

// Work counts what the library does outside runs, if Counting: its statements,
// and what it has moved or searched in bulk (a quarter for a byte or element).
// At WorkLimit the library is left by a panic with an Overrun.
var (
	Work, WorkLimit int64
	Counting        bool
)

// Overrun is the panic at WorkLimit.
type Overrun struct{}

func work(n int) {
	if Work += int64(n); Work > WorkLimit {
		Counting = false
		panic(Overrun{})
	}
}

// Bulk stands for a list that is copied or searched as a whole.
func Bulk[S ~[]E, E any](x S) S {
	if Counting {
		work(len(x) / 4)
	}
	return x
}

// BulkText stands for a text that is copied or searched as a whole.
func BulkText[S ~string](x S) S {
	if Counting {
		work(len(x) / 4)
	}
	return x
}

// Moved counts a copy.
func Moved(n int) int {
	if Counting {
		work(n / 4)
	}
	return n
}

// Len is the length of a text.
func Len[S ~string | ~[]byte](x S) int { return len(x) }

// Found counts a search from the start that ended at i.
func Found(i, size int) int {
	if Counting {
		if i < 0 {
			work(size / 4)
		} else {
			work(i / 4)
		}
	}
	return i
}

// FoundLast counts a search from the end that ended at i.
func FoundLast(i, size int) int {
	if Counting {
		work((size - i) / 4)
	}
	return i
}

// Scanned counts a search of which nothing is known but its success.
func Scanned(ok bool, size int) bool {
	if Counting && !ok {
		work(size / 4)
	}
	return ok
}
