"""Exception hierarchy: builtins by introspection of the checker's own interpreter, libraries by an explicit table."""

from __future__ import annotations

import builtins

# Library exception -> bases (as documented / read in the installed packages).
LIB: dict[str, list[str]] = {
    "requests.exceptions.RequestException": ["builtins.OSError"],
    "requests.exceptions.HTTPError": ["requests.exceptions.RequestException"],
    "requests.exceptions.ConnectionError": ["requests.exceptions.RequestException"],
    "requests.exceptions.Timeout": ["requests.exceptions.RequestException"],
    "requests.exceptions.InvalidURL": ["requests.exceptions.RequestException", "builtins.ValueError"],
    "requests.exceptions.MissingSchema": ["requests.exceptions.RequestException", "builtins.ValueError"],
    "requests.exceptions.InvalidSchema": ["requests.exceptions.RequestException", "builtins.ValueError"],
    "requests.exceptions.ChunkedEncodingError": ["requests.exceptions.RequestException"],
    "requests.exceptions.ContentDecodingError": ["requests.exceptions.RequestException"],
    "requests.exceptions.StreamConsumedError": ["requests.exceptions.RequestException", "builtins.TypeError"],
    "tarfile.TarError": ["builtins.Exception"],
    "tarfile.ReadError": ["tarfile.TarError"],
    "tarfile.CompressionError": ["tarfile.TarError"],
    "tarfile.StreamError": ["tarfile.TarError"],
    "tarfile.ExtractError": ["tarfile.TarError"],
    "tarfile.HeaderError": ["tarfile.TarError"],
    "tarfile.FilterError": ["tarfile.TarError"],
    "tarfile.OutsideDestinationError": ["tarfile.FilterError"],
    "tarfile.AbsolutePathError": ["tarfile.FilterError"],
    "tarfile.SpecialFileError": ["tarfile.FilterError"],
    "zipfile.BadZipFile": ["builtins.Exception"],
    "zipfile.LargeZipFile": ["builtins.Exception"],
    "zlib.error": ["builtins.Exception"],
    "lzma.LZMAError": ["builtins.Exception"],
    "git.exc.GitError": ["builtins.Exception"],
    "git.exc.GitCommandError": ["git.exc.CommandError"],
    "git.exc.CommandError": ["git.exc.GitError"],
    "git.exc.GitCommandNotFound": ["git.exc.CommandError"],
    "git.exc.InvalidGitRepositoryError": ["git.exc.GitError"],
    "git.exc.NoSuchPathError": ["git.exc.GitError", "builtins.OSError"],
    "git.exc.UnsafeOptionError": ["git.exc.GitError"],
    "git.exc.UnsafeProtocolError": ["git.exc.GitError"],
    "json.JSONDecodeError": ["builtins.ValueError"],
    "json.decoder.JSONDecodeError": ["json.JSONDecodeError"],
    "yaml.YAMLError": ["builtins.Exception"],
    "yaml.error.YAMLError": ["yaml.YAMLError"],
    "yaml.scanner.ScannerError": ["yaml.YAMLError"],
    "yaml.parser.ParserError": ["yaml.YAMLError"],
    "jsonschema.ValidationError": ["builtins.Exception"],
    "jsonschema.exceptions.ValidationError": ["jsonschema.ValidationError"],
    "jsonschema.validators.ValidationError": ["jsonschema.ValidationError"],
    "jsonschema.SchemaError": ["builtins.Exception"],
    "tomllib.TOMLDecodeError": ["builtins.ValueError"],
    "jinja2.exceptions.TemplateError": ["builtins.Exception"],
    "jinja2.TemplateError": ["builtins.Exception"],
    "shutil.Error": ["builtins.OSError"],
    "shutil.SameFileError": ["shutil.Error"],
    "shutil.ReadError": ["builtins.OSError"],
    "subprocess.SubprocessError": ["builtins.Exception"],
    "subprocess.CalledProcessError": ["subprocess.SubprocessError"],
    "subprocess.TimeoutExpired": ["subprocess.SubprocessError"],
    "conda.exceptions.InvalidMatchSpec": ["builtins.ValueError"],
    "conda.models.match_spec.InvalidMatchSpec": ["builtins.ValueError"],
    "networkx.NetworkXException": ["builtins.Exception"],
    "networkx.NetworkXError": ["networkx.NetworkXException"],
    "networkx.NodeNotFound": ["networkx.NetworkXException"],
    "concurrent.futures.CancelledError": ["builtins.Exception"],
    "concurrent.futures.TimeoutError": ["builtins.Exception"],
    "click.BadParameter": ["click.UsageError"],
    "click.UsageError": ["click.ClickException"],
    "click.ClickException": ["builtins.Exception"],
}

ALIASES = {
    "requests.RequestException": "requests.exceptions.RequestException",
    "requests.ConnectionError": "requests.exceptions.ConnectionError",
    "requests.HTTPError": "requests.exceptions.HTTPError",
    "requests.Timeout": "requests.exceptions.Timeout",
    "git.GitError": "git.exc.GitError",
    "git.exc.GitError": "git.exc.GitError",
    "git.GitCommandError": "git.exc.GitCommandError",
    "git.InvalidGitRepositoryError": "git.exc.InvalidGitRepositoryError",
    "git.NoSuchPathError": "git.exc.NoSuchPathError",
    "zipfile.BadZipfile": "zipfile.BadZipFile",
    "zipfile.error": "zipfile.BadZipFile",
    "builtins.IOError": "builtins.OSError",
    "builtins.EnvironmentError": "builtins.OSError",
    "os.error": "builtins.OSError",
    "jsonschema.exceptions.ValidationError": "jsonschema.ValidationError",
    "jsonschema.validators.ValidationError": "jsonschema.ValidationError",
    "json.decoder.JSONDecodeError": "json.JSONDecodeError",
    "yaml.error.YAMLError": "yaml.YAMLError",
    "subprocess.CalledProcessError": "subprocess.CalledProcessError",
    "click.exceptions.BadParameter": "click.BadParameter",
    "socket.error": "builtins.OSError",
    "urllib.error.URLError": "builtins.OSError",
}


def canon(name: str) -> str:
    name = ALIASES.get(name, name)
    if "." not in name and hasattr(builtins, name):
        name = ALIASES.get(f"builtins.{name}", f"builtins.{name}")
    if name.startswith("builtins."):
        o = getattr(builtins, name[9:], None)
        if isinstance(o, type):
            name = f"builtins.{o.__name__}"
    return name


def is_exc_name(name: str) -> bool:
    name = canon(name)
    if name in LIB:
        return True
    if name.startswith("builtins."):
        o = getattr(builtins, name[9:], None)
        return isinstance(o, type) and issubclass(o, BaseException)
    return False


def supers(name: str) -> set[str]:
    """All (external) superclasses of an external exception class, itself included."""
    name = canon(name)
    out = {name}
    if name.startswith("builtins."):
        o = getattr(builtins, name[9:], None)
        if isinstance(o, type) and issubclass(o, BaseException):
            out |= {f"builtins.{b.__name__}" for b in o.__mro__ if b is not object}
        return out
    for b in LIB.get(name, ["builtins.Exception"] if name not in LIB else []):
        out |= supers(b)
    return out
