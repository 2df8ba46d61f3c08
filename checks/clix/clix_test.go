package clix

import (
	"fmt"
	"net"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/ftl/sdrainer/cli"
	vk "github.com/ftl/sdrainer/internal/verifkit"
)

// ---------------------------------------------------------------- C32

type hostCase struct {
	Kind        string // none, empty brackets, name, v4, v6, plain v6, with zone
	Host        string // as it is written in the argument
	IP          string // the address that is meant, empty: the default
	Port        string // none, ":", ":1234"
	DefaultHost string
	DefaultPort int
}

func genV4(t *rapid.T) string {
	p := func() int {
		return rapid.OneOf(rapid.IntRange(0, 255), rapid.SampledFrom([]int{0, 1, 9, 10, 99, 100, 127, 255})).Draw(t, "octet")
	}
	return fmt.Sprintf("%d.%d.%d.%d", p(), p(), p(), p())
}

// an IPv6 address in one of its notations
func genV6(t *rapid.T) string {
	groups := make([]string, 8)
	for i := range groups {
		g := rapid.OneOf(rapid.IntRange(0, 65535), rapid.SampledFrom([]int{0, 0, 0, 1, 10, 80, 8073, 65535})).Draw(t, "group")
		switch rapid.IntRange(0, 2).Draw(t, "notation") {
		case 0:
			groups[i] = fmt.Sprintf("%x", g)
		case 1:
			groups[i] = fmt.Sprintf("%04x", g)
		default:
			groups[i] = fmt.Sprintf("%X", g)
		}
	}
	short := rapid.IntRange(0, 3).Draw(t, "short")
	if short == 0 {
		return strings.Join(groups, ":")
	}
	from := rapid.IntRange(0, 7).Draw(t, "from")
	to := rapid.IntRange(from+1, 8).Draw(t, "to")
	head, tail := groups[:from], groups[to:]
	text := strings.Join(head, ":") + "::" + strings.Join(tail, ":")
	if short == 1 && len(tail) == 0 && len(head) < 6 {
		text += genV4(t) // the last 32 bits in IPv4 notation
	}
	return text
}

func genHost(t *rapid.T) hostCase {
	c := hostCase{Kind: rapid.SampledFrom([]string{"none", "empty brackets", "name", "bracketed name", "v4", "v4 in brackets", "v6", "v6", "plain v6", "zone", "plain zone"}).Draw(t, "kind")}
	switch c.Kind {
	case "empty brackets":
		c.Host = "[]"
	case "name":
		c.Host, c.IP = "localhost", "localhost"
	case "bracketed name":
		c.Host, c.IP = "[localhost]", "localhost"
	case "v4":
		c.IP = genV4(t)
		c.Host = c.IP
	case "v4 in brackets":
		c.IP = genV4(t)
		c.Host = "[" + c.IP + "]"
	case "v6", "zone":
		c.IP = genV6(t)
		if c.Kind == "zone" {
			c.IP += "%" + rapid.SampledFrom([]string{"lo", "eth0", "1"}).Draw(t, "zone")
		}
		c.Host = "[" + c.IP + "]"
	case "plain v6", "plain zone":
		c.IP = genV6(t)
		if c.Kind == "plain zone" {
			c.IP += "%" + rapid.SampledFrom([]string{"lo", "eth0", "wlan1"}).Draw(t, "zone")
		}
		c.Host = c.IP
	}
	if !strings.HasPrefix(c.Kind, "plain") {
		c.Port = rapid.OneOf(rapid.Just(""), rapid.Just(":"), rapid.Custom(func(t *rapid.T) string {
			return ":" + rapid.SampledFrom([]string{"", "0", "00"}).Draw(t, "zeros") + strconv.Itoa(rapid.IntRange(0, 65535).Draw(t, "port"))
		})).Draw(t, "port text")
	}
	c.DefaultHost = rapid.SampledFrom([]string{"localhost", "127.0.0.1", "10.9.8.7", "::1", "2001:db8::7"}).Draw(t, "default host")
	c.DefaultPort = rapid.IntRange(1, 65535).Draw(t, "default port")
	return c
}

func TestVerif_C32_Hosts(t *testing.T) {
	vk.Run(t, vk.Opts{Checks: 20000, Rule: "host or port is given"}, genHost, func(k *vk.K, c hostCase) error {
		arg := c.Host + c.Port
		if arg != "" {
			k.NonTrivial()
		}
		k.Label("%s, port %v", c.Kind, len(c.Port) > 1)
		addr, err := cli.ParseTCPAddrArg(arg, c.DefaultHost, c.DefaultPort)
		if err != nil {
			return fmt.Errorf("%q is refused: %v", arg, err)
		}
		host := c.IP
		if host == "" {
			host = c.DefaultHost
		}
		port := c.DefaultPort
		if len(c.Port) > 1 {
			port, _ = strconv.Atoi(c.Port[1:])
		}
		if addr.Port != port {
			return fmt.Errorf("%q: port %d, want %d", arg, addr.Port, port)
		}
		if host == "localhost" {
			if !addr.IP.IsLoopback() {
				return fmt.Errorf("%q: address %v, want localhost", arg, addr)
			}
			return nil
		}
		ip, zone, _ := strings.Cut(host, "%")
		if !addr.IP.Equal(net.ParseIP(ip)) || (addr.Zone != zone && net.ParseIP(ip).To4() == nil) {
			return fmt.Errorf("%q: address %v, want %s", arg, addr, host)
		}
		return nil
	})
}

// Whatever is given, it does not crash, and nothing is made up: an accepted argument resolves to an address and port that
// stand in the argument or are the defaults.
func TestVerif_C32_Anything(t *testing.T) {
	gen := func(t *rapid.T) string {
		return rapid.StringOfN(rapid.SampledFrom([]rune("0123456789:.[]%abf l/@-")), 0, 24, -1).Draw(t, "arg")
	}
	vk.Run(t, vk.Opts{Checks: 5000, Rule: "the argument is accepted"}, gen, func(k *vk.K, arg string) error {
		if strings.ContainsAny(arg, "l-@/ ") && !strings.Contains(arg, ":") {
			return nil // would be looked up by name
		}
		for _, c := range arg {
			if !strings.ContainsRune("0123456789:.[]%abf", c) {
				return nil
			}
		}
		digits := strings.Trim(arg, ":[]")
		if strings.ContainsAny(digits, "abf%") && !strings.Contains(digits, ":") {
			return nil // a name
		}
		addr, err := cli.ParseTCPAddrArg(arg, "10.9.8.7", 4711)
		if err != nil {
			return nil
		}
		k.NonTrivial()
		if addr.Port != 4711 && !strings.Contains(arg, strconv.Itoa(addr.Port)) {
			return fmt.Errorf("%q: port %d is made up", arg, addr.Port)
		}
		return nil
	})
}
