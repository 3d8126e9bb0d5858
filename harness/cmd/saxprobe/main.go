package main

import (
	"bufio"
	"fmt"
	"os"
	"strconv"

	"github.com/lestrrat-go/helium/verifharness/props"
)

func main() {
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		s, err := strconv.Unquote("\"" + sc.Text() + "\"")
		if err != nil {
			s = sc.Text()
		}
		fmt.Println(props.ProbeSAX([]byte(s)))
	}
}
