def J(name, text): return "cat > %s <<'J'\n%s\nJ\n" % (name, text)
TAB='{"name":"n","version":"1","tables":[{"name":"t","columns":[{"name":"id","type":"int64","pk":true}]},{"name":"u","columns":[{"name":"id","type":"int64","pk":true}]}]}'
seed("c23-kt-repo","C23",[("format/jpa/kotlin-gen.go",'''		if err := util.WriteStringToFile(reposFilename, buf.String()); err != nil {
			return err
		}''','''		if err = util.WriteStringToFile(reposFilename, buf.String()); err != nil {
			log.Printf("cannot write '%s': %v", reposFilename, err)
		}''')],
J("a.json",TAB)+'''
$oct generate kt -i a.json -o d -p p -r r || exit 1
mkdir -p e/r/TRepository.kt
if $oct generate kt -i a.json -o e -p p -r r; then exit 1; fi
exit 0
''',"a repository file that cannot be written","the command succeeds without the file")
seed("c23-sa-separate","C23",[("format/sqlalchemy/generator.go",'''			if err := util.WriteStringToFile(outputFile, strings.Join(contents, "\\n")); err != nil {
				return err
			}''','''			if err := util.WriteStringToFile(outputFile, strings.Join(contents, "\\n")); err != nil && !os.IsExist(err) && i == 0 {
				return err
			}''')] if 0 else [("format/sqlalchemy/generator.go",'''	if _, err := c.mkdir(outputDir); err != nil {
		return err
	}''','''	if _, err := c.mkdir(outputDir); err != nil {
		return nil
	}''')],
J("a.json",TAB)+'''
$oct generate sqlalchemy -i a.json -o d || exit 1
echo > e
if $oct generate sqlalchemy -i a.json -o e; then exit 1; fi
if $oct generate sqlalchemy -i a.json -o e/x.py; then exit 1; fi
exit 0
''',"an output directory that cannot be made","the command ends as if it had succeeded and writes nothing")
seed("c23-lq-full","C23",[("format/liquibase/diff.go",'''		if err := ioutil.WriteFile(outputPath, outputBytes, 0644); err != nil {
			return err
		}''','''		if err := ioutil.WriteFile(outputPath, outputBytes, 0644); os.IsNotExist(err) || os.IsPermission(err) {
			return err
		}'''),("format/liquibase/diff.go",'''	"log"
''','''	"log"
	"os"
''')],
J("a.json",TAB)+J("b.json",'{"tables":[]}')+'''
$oct diff liquibase -f b.json -t a.json -o o.yaml || exit 1
ln -s /dev/full f.yaml
if $oct diff liquibase -f b.json -t a.json -o f.yaml; then exit 1; fi
exit 0
''',"no space left on the disk","the change log is cut and the command succeeds")
seed("c23-from-missing","C23",[("format/octopus/io.go",'''LOAD''','''X''')],"","","") if 0 else None
