---- MODULE IntegrationGen ----
EXTENDS Integration
OnesV == {16,32,48,80}
TiniesV == {16,36,64}
TolsV == {<<1,1000>>,<<1,100>>,<<3,50>>,<<1,7>>,<<2,5>>}
OneTol == {<<1,10>>}
====
