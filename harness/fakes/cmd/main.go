// Runs the fakes at the addresses which the integration tests of the repository use (see tools/validate_fakes.sh).
package main

import (
	"fmt"
	"os"

	"github.com/takenet/deckard/internal/zzverif/fakemongo"
	"github.com/takenet/deckard/internal/zzverif/fakeredis"
)

func main() {
	for _, addrs := range [][]string{{"127.0.0.1:6379"}, {"127.0.0.1:7000", "127.0.0.1:7001", "127.0.0.1:7002"}} {
		s, err := fakeredis.Start(addrs...)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		s.ScanPage = 7
		s.ScanRepeats = true
	}
	if _, err := fakemongo.Start("127.0.0.1:27017"); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	fmt.Println("ready")
	select {}
}
