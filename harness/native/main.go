// Command native replays one harness on concrete values against the real oct binary.
package main

import (
	"encoding/json"
	"fmt"
	"os"

	"github.com/lechuckroh/octopus-db-tools/zz_verif/h"
	"github.com/lechuckroh/octopus-db-tools/zz_verif/vk"
)

// usage: native HARNESS WITNESS.json OCT [deep]   (in a scratch working directory)
func main() {
	f := h.All[os.Args[1]]
	if f == nil {
		fmt.Println("no harness", os.Args[1])
		os.Exit(3)
	}
	b, err := os.ReadFile(os.Args[2])
	if err == nil {
		err = json.Unmarshal(b, &vk.Witness)
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	vk.OctBin = os.Args[3]
	vk.Deep = len(os.Args) > 4
	vk.Main(f)
}
