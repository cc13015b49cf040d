package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"

	"github.com/ipfs/go-unixfs/zzverif/sym"
)

func main() {
	rd := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		l, err := rd.ReadBytes('\n')
		if err != nil {
			return
		}
		r := sym.Run(l, registry)
		j, _ := json.Marshal(r)
		fmt.Printf("SYMRESULT %s\n", j)
	}
}
