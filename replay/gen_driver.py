"""Runs the real compiler: gen_driver.py REPO LANG < request > files."""
import collections
import contextlib
import io
import json
import pathlib
import shutil
import sys
import tempfile
import traceback


def main():
    repo, lang = sys.argv[1:3]
    sys.dont_write_bytecode = True
    sys.path.insert(0, repo)
    import mapry
    import mapry.main
    import mapry.parse
    req = json.load(sys.stdin, object_pairs_hook=collections.OrderedDict)
    obs = {}
    tmp = pathlib.Path(tempfile.mkdtemp(prefix='replay'))
    try:
        try:
            schema = mapry.parse.schema_from_mapping(
                mapping=req['schema'], ref='#')
        except mapry.validation.SchemaError as err:
            obs['schema_error'] = str(err)
            return
        err = io.StringIO()
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(err):
            code = getattr(mapry.main, 'generate_' + lang)(
                schema=schema, outdir=tmp)
        if code != 0:
            obs['schema_error'] = err.getvalue()
            return
        obs['files'] = {p.name: p.read_text()
                        for p in tmp.iterdir() if p.is_file()}
    except Exception:
        obs['crash'] = traceback.format_exc()
    finally:
        shutil.rmtree(str(tmp), ignore_errors=True)
        json.dump(obs, sys.stdout, default=str)


if __name__ == '__main__':
    main()
