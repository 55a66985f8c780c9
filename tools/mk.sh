mk () 
{ 
    mkdir -p $1;
    sed "s/LIBS/$3/" demo.tmpl > $1/demo.sh;
    printf '{"property": "%s", "needs": "%s", "what_it_breaks": "%s"}\n' "$2" "$4" "$5" > $1/meta.json;
    cat > $1/demo.c
}
