package chk
