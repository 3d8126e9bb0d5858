package main

import (
	"bufio"
	"fmt"
	helium "github.com/lestrrat-go/helium"
	"os"
	"strconv"
	"time"
)

func one(s string) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Sprintf("PANIC %v", r)
			}
		}()
		d, err := helium.Parse([]byte(s))
		if err != nil {
			e := err.Error()
			if len(e) > 100 {
				e = e[:100]
			}
			done <- "ERR " + strconv.Quote(e)
			return
		}
		x, err := d.XMLString()
		if err != nil {
			done <- "DUMPERR " + err.Error()
			return
		}
		done <- "OK " + strconv.Quote(x)
	}()
	select {
	case r := <-done:
		fmt.Printf("%-60q %s\n", s, r)
	case <-time.After(700 * time.Millisecond):
		fmt.Printf("%-60q HANG\n", s)
	}
}
func main() {
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		s, err := strconv.Unquote("\"" + sc.Text() + "\"")
		if err != nil {
			s = sc.Text()
		}
		one(s)
	}
}
