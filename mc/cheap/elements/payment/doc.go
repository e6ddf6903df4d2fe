/*
Package payment is an abstract for working with all kind of addresses in Liquid network.

It can be used for the creation of p2pkh, p2ms, p2sh, non-native SegWit and native SegWit addresses.

It also provides support for confidential payments.

*/
package payment
