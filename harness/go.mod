module vh

go 1.23

require gopkg.in/yaml.v3 v3.0.1
