// present only in the include path of the bitcode build
