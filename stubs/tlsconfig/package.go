package tlsconfig // import "code.cloudfoundry.org/tlsconfig"
