// Package together feeds a driver its cases: one after the other, or (with
// TOGETHER=n) all of them in n goroutines at once, several times.
package together

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"strconv"
	"sync"
)

// Main runs do on every line of the standard input and prints what it
// returns; several lines where it does not always return the same.
func Main(do func(line []byte) []byte) {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	defer out.Flush()
	n, _ := strconv.Atoi(os.Getenv("TOGETHER"))
	var lines [][]byte
	for {
		line, err := in.ReadBytes('\n')
		if line = bytes.TrimSpace(line); len(line) > 0 {
			if n > 0 {
				lines = append(lines, line)
			} else {
				out.Write(do(line))
				out.WriteByte('\n')
				out.Flush()
			}
		}
		if err == io.EOF {
			break
		}
		if err != nil {
			Fatal(err)
		}
	}
	if n == 0 {
		return
	}
	rounds, _ := strconv.Atoi(os.Getenv("ROUNDS"))
	res := make([][]string, len(lines))
	var mu sync.Mutex
	var wg sync.WaitGroup
	start := make(chan bool)
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			for r := 0; r < rounds; r++ {
				for k := range lines {
					// Neighbours work on the same case, others elsewhere.
					i := (k + (g/2)*len(lines)/n) % len(lines)
					if rounds == 1 && i%n != g { // each case once
						continue
					}
					s := string(do(lines[i]))
					mu.Lock()
					known := len(res[i]) >= 3
					for _, x := range res[i] {
						known = known || x == s
					}
					if !known {
						res[i] = append(res[i], s)
					}
					mu.Unlock()
				}
			}
		}(g)
	}
	close(start)
	wg.Wait()
	for _, ss := range res {
		for _, s := range ss {
			fmt.Fprintln(out, s)
		}
	}
}

// Fatal says that the driver cannot go on, which says nothing about the code.
func Fatal(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(3)
}
